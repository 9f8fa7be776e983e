#!/usr/bin/env python3
"""replay.py FILE: re-evaluate the recorded failing input of a contract on /repo's current code."""
import sys, os, json
V = os.path.dirname(os.path.abspath(__file__))
if sys.executable != '/opt/venv/bin/python':
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__), os.path.abspath(sys.argv[1])])
os.environ.update(PATH_TO_POSYDON='./', PATH_TO_POSYDON_DATA='./posydon/unit_tests/_data/', MESA_DIR='./', MPLBACKEND='Agg')
sys.path.insert(0, V)
r = json.load(open(sys.argv[1])); os.chdir(os.environ.get('PYVC_REPO', '/repo'))
if not r.get('inputs'):
    print('no failing input recorded; failed obligation:', r['contract'], r['obligation']); print(r.get('detail')); sys.exit(1)
from pyvc import con
import random
con.load(r['property'])
st, c = con.one(con.CONTRACTS[r['contract']], random.Random(1), r['inputs'], [])
print(st, c.first)
sys.exit(1 if st == 'fail' else 0)
