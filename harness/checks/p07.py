"""P07: energy is conserved over the whole array."""
import numpy as np
from .. import cases, core, ref, view

ID = 'P07'
RULE = ('random and directed full mode simulations; one balance of light per '
        'timestep over all surfaces; non-trivial per distinct situation of a '
        'judged timestep and irradiance model')
COUNT = {'quick': 620, 'thorough': 9000}
REQUIRED = {'step': 1000, 'flat': 20, 'over': 40, 'shade_front': 50,
            'shade_back': 20, 'left': 100, 'cut': 100, 'beam-balance': 500}
ASSUMPTIONS = ['the beam balance is judged when modules are opaque and no '
               'shadow reaches the ends of the modelled ground']
shrink = core.shrink_steps
TOL = 1e-7


def corners(tier):
    return cases.corner_cases()


def gen(rng, k, tier):
    return cases.random_case(rng, k, tier, raised=True, max_zenith=89.5,
                             long_every=0)


def judge(case, mon):
    scn = case['scn']
    v = view.full(scn)
    hyb = scn['irr']['model'] == 'hybrid'
    p = {k: v.param(k) for k in ['direct', 'qinc', 'isotropic', 'qabs'] + (
        ['circumsolar', 'horizon'] if hyb else [])}
    live = v.real()
    for i in range(v.n):
        st = v.step(i)
        if not st.usable:
            mon.ev('skipped-irregular')
            continue
        mon.sig(scn['irr']['model'], st.classes(mon))
        m = live[:, i]
        L = v.L[m, i]
        # reflectivities and escape to the sky from the reference model
        inp = st.inputs()
        rho = np.array([inp[k]['rho'] for k in np.flatnonzero(m)])
        sky = np.array([st.F()[k, v.ns] for k in np.flatnonzero(m)])
        E = p['direct'][m, i] + p['isotropic'][m, i]
        if hyb:
            E = E + p['circumsolar'][m, i] + p['horizon'][m, i]
        q = p['qinc'][m, i]
        came = float((L * E).sum())
        kept = float((L * p['qabs'][m, i]).sum())
        left = float((L * sky * rho * q).sum())
        mon.close(kept + left, came, TOL, 'balance',
                  'absorbed plus escaped differs from what came in',
                  scale=came + L.sum() * 1e-2, step=i)
        kept2 = float((L * (1 - rho) * q).sum())
        mon.close(kept2 + left, came, TOL, 'balance-incident',
                  'incident light does not balance',
                  scale=came + L.sum() * 1e-2, step=i)
        # beam: what the ground would receive is split between rows and ground
        g, s = st.geo, st.sky
        k = g.sun[0] / g.sun[1]
        ends = np.concatenate([g.e1, g.e2])
        inside = np.abs(ends[:, 0] - k * ends[:, 1]).max() < ref.X_GROUND
        if s.through == 0. and s.dni > 0 and inside:
            mon.hit('beam-balance')
            tot = float((L * p['direct'][m, i]).sum())
            mon.close(tot, 2 * ref.X_GROUND * s.dni * s.cosz, 1e-7,
                      'beam', 'direct light over ground and rows differs from '
                      'what enters the section', step=i,
                      scale=2 * ref.X_GROUND * s.dni * s.cosz + 1.)
