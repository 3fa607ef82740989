"""P04: closure, range, reciprocity and structural zeros of view factors."""
import numpy as np
from .. import cases, core, sut, view
from ..ref import TINY

ID = 'P04'
RULE = ('random and directed arrays; every entry of every view factor matrix '
        'judged; non-trivial per distinct situation of a judged timestep')
COUNT = {'quick': 1260, 'thorough': 9000}
REQUIRED = {'used': 40, 'engine': 40, 'aoi': 40, 'step': 1000, 'flat': 20, 'over': 50, 'shade_front': 50,
            'shade_back': 20, 'left': 100, 'nonzero': 10000}
shrink = core.shrink_steps


def corners(tier):
    return [dict(c, how=sut.VF_HOW[i % 4])
            for i, c in enumerate(cases.corner_cases(model='isotropic'))]


def gen(rng, k, tier):
    return dict(cases.random_case(rng, k, tier, raised=True, max_zenith=89.9),
                how=sut.VF_HOW[k % 4])


def judge(case, mon):
    how = case.get('how', 'fresh')
    arr, F = sut.vf_of(case['scn'], how)
    v = view.View(case['scn'], arr)
    mon.hit(how)
    n = v.ns
    mon.ok(F.shape == (n + 1, n + 1, v.n), 'shape', 'matrix shape',
           got=list(F.shape), want=[n + 1, n + 1, v.n])
    for i in range(v.n):
        st = v.step(i)
        mon.sig(st.classes(mon))
        live = v.L[:, i] > TINY
        f = F[:n, :, i][live]
        mon.leq(-f, 0., 1e-7, 'non-negative', 'negative view factor', step=i)
        mon.leq(f, 1., 1e-7, 'at-most-one', 'view factor above one', step=i)
        mon.close(f.sum(1), 1., 1e-7, 'closure',
                  'view factors of a surface do not add up to one', step=i)
        Li = v.L[:, i]
        G = F[:n, :n, i] * Li[:, None]
        sub = np.ix_(live, live)
        mon.close(G[sub], G.T[sub], 1e-7, 'reciprocity',
                  'L_i F_ij differs from L_j F_ji', step=i,
                  scale=np.minimum.outer(Li, Li)[sub] + 1e-3)
        mon.hit('nonzero', int((G[sub] > 1e-9).sum()))
        # structural zeros
        key = []
        for s in v.surfs:
            if s.kind == 'g':
                key.append(0)
            elif s.side == 'front':
                key.append(1)
            else:
                key.append(2)
        key = np.array(key)
        row = np.array([-1 if s.kind == 'g' else s.row for s in v.surfs])
        zero = (key[:, None] == key[None, :])      # same facing, or ground
        zero |= (row[:, None] == row[None, :]) & (key[:, None] > 0)
        gap = np.abs(row[:, None] - row[None, :])
        zero |= (row[:, None] >= 0) & (row[None, :] >= 0) & (gap > 1)
        z = np.abs(F[:n, :n, i][zero & live[:, None] & live[None, :]])
        mon.leq(z, 0., 1e-9, 'cannot-see',
                'surfaces that cannot see each other exchange light', step=i)
        mon.leq(np.abs(F[n, :, i]), 0., 1e-12, 'sky-row',
                'the sky receives nothing', step=i)
