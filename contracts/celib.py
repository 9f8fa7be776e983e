"""Callee contracts of the orbital utilities (proved in C04) as stand-ins, and the same laws for the specification."""
CF = 'posydon.utils.common_functions'


def externs(c):
    """in the symbolic run the orbital utilities are replaced by what their contracts promise (they are functions of their arguments with these preconditions)"""
    if not c.symbolic: return
    import posydon.utils.common_functions as cf
    import numpy as np
    def f_rl(m1, m2, a_orb=1): c.check('pre:roche_lobe', c.And(m1 > 0, m2 > 0, a_orb > 0)); return rl(c, m1, m2, a_orb)
    def f_sep(P, m1, m2): c.check('pre:separation', c.And(m1 + m2 > 0, P > 0)); return sep(c, P, m1, m2)
    def f_per(a, m1, m2): c.check('pre:period', c.And(m1 + m2 > 0, a > 0)); return per(c, a, m1, m2)
    def f_mt(period_i, Mdon_i, Mdon_f, Macc_i, alpha=0.0, beta=0.0):
        c.check('pre:stable_MT', c.And(Mdon_f <= Mdon_i, Mdon_f > 0, Macc_i > 0, period_i > 0))
        return mt(c, period_i, Mdon_i, Mdon_f, Macc_i, alpha, beta)
    for n, f in (('roche_lobe_radius', f_rl), ('orbital_separation_from_period', f_sep), ('orbital_period_from_separation', f_per), ('period_change_stable_MT', f_mt)):
        c.patch(getattr(cf, n), f)


def pos_uf(c, name, *a):
    v = c.uf(name, *a); c.assume(v > 0); return v


def rl(c, m1, m2, a):
    if c.symbolic: return a * pos_uf(c, 'roche_lobe', m1, m2)
    q = c.root(m1 / m2, 3); return a * 0.49 * q**2 / (0.6 * q**2 + c.log(1 + q))


def sep(c, P, m1, m2):
    if c.symbolic: return pos_uf(c, 'kepler_sep', P, m1, m2)
    return c.root(c.K('standard_cgrav') * (m1 + m2) * c.K('Msun') * (P * 86400)**2 / (4 * c.pi**2), 3) / c.K('Rsun')


def per(c, a, m1, m2):
    if c.symbolic: return pos_uf(c, 'kepler_per', a, m1, m2)
    return c.K('dayyer') * c.sqrt((a / c.K('aursun'))**3 / (m1 + m2))


def mt(c, P, d0, d1, a0, alpha, beta):
    if c.symbolic: return pos_uf(c, 'stable_mt_%g_%g' % (alpha, beta), P, d0, d1, a0)
    if (alpha, beta) == (0., 1.): return P * (d0 / d1)**3 * c.exp(3 * (d1 - d0) / a0) * ((d0 + a0) / (d1 + a0))**2
    if (alpha, beta) == (1., 0.): return P * ((d0 + a0) / (d1 + a0))**2
