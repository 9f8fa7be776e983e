"""Shared builders for the supernova contracts."""
SN = 'posydon.binary_evol.SN.step_SN'


def make(c, mechanism='Fryer+12-rapid', **k):
    """a step as users configure it; engines that need tables are selected after construction, with the tables as externals"""
    table = mechanism not in ('Fryer+12-rapid', 'Fryer+12-delayed', 'direct', 'direct_he_core')
    kw = dict(ECSN='Tauris+15', PISN=None, conserve_hydrogen_envelope=False, use_interp_values=False, use_profiles=False, use_core_masses=True, allow_spin_None=False)
    kw.update(k); later = {}
    for n in list(kw):
        if c._isnum(kw[n]) and not isinstance(kw[n], bool): later[n] = kw.pop(n)
    s = c.fn(SN + ':StepSN')(mechanism='Fryer+12-rapid' if table else mechanism, **kw)
    for n, v in later.items(): setattr(s, n, v)
    s.mechanism = mechanism
    return s


def star(c, **k):
    from posydon.binary_evol.singlestar import SingleStar
    kw = dict(state='H-rich_Core_C_depleted', mass=20., he_core_mass=8., co_core_mass=6., center_he4=0., metallicity=1.0, log_total_angular_momentum=50.)
    s = SingleStar(**kw); kw.update(k)
    for n, v in kw.items(): setattr(s, n, v)
    s.SN_type = None; s.f_fb = None
    s.metallicity_history = [s.metallicity]
    s.mass_history = [s.mass]; s.state_history = [s.state]; s.co_core_mass_history = [s.co_core_mass]; s.he_core_mass_history = [s.he_core_mass]
    return s
