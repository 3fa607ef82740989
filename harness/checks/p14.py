"""P14: cutting a side into segments refines results without moving light."""
import copy
import numpy as np
from .. import cases, core, ref, sut, view
from ..ref import TINY

ID = 'P14'
RULE = ('random and directed arrays with a random cut, compared with the '
        'uncut array; non-trivial per distinct situation of a compared '
        'timestep and cut')
COUNT = {'quick': 300, 'thorough': 5000}
REQUIRED = {'step': 500, 'flat': 10, 'over': 30, 'shade_front': 50,
            'shade_back': 20, 'left': 100, 'cut': 400, 'partial': 50}
shrink = core.shrink_steps


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        scn = copy.deepcopy(c['scn'])
        R = scn['arr']['n_pvrows']
        scn['arr']['cut'] = {str(r): {'front': 1 + (r + i) % 4,
                                      'back': 1 + (2 * r + i) % 3}
                             for r in range(R)}
        out.append({'scn': scn, 'row': i})
    return out


def gen(rng, k, tier):
    scn = cases.random_case(rng, k, tier, max_zenith=89.5, long_every=0,
                            many=(4, 7), trans=True)['scn']
    R = scn['arr']['n_pvrows']
    scn['arr']['cut'] = {str(r): {'front': int(rng.integers(1, 5)),
                                  'back': int(rng.integers(1, 5))}
                         for r in range(R)}
    return {'scn': scn, 'row': int(rng.integers(0, R))}


def groups(v, cutpts=False):
    """Group id of every surface: a row side part, or a ground surface (these
    do not change with the cut)."""
    keys = []
    ng = 0
    for s in v.surfs:
        if s.kind == 'g':
            keys.append(('g', ng))
            ng += 1
        else:
            keys.append(('r', s.row, s.side, s.shaded))
    return keys


def sides(eng, v, row, names):
    """Averages over whole sides of light that does not depend on uneven
    reflections, before and after running."""
    out = {}
    with sut.code('averages of whole sides'):
        for r, ts_row in enumerate(v.arr.ts_pvrows):
            for name in ('front', 'back'):
                side = getattr(ts_row, name)
                for k in names + (['horizon'] if name == 'front' and
                                  len(names) > 1 else []):
                    out['fit', r, name, k] = side.get_param_weighted(k)
        eng.run_fast_mode(pvrow_index=row)
        side = v.arr.ts_pvrows[row].back
        for k in ('isotropic', 'reflection', 'reflection_gnd_shaded',
                  'reflection_gnd_illum', 'reflection_pvrow_shaded',
                  'reflection_pvrow_illum'):
            out['fast', row, 'back', k] = side.get_param_weighted(k)
        eng.run_full_mode()
        for r, ts_row in enumerate(v.arr.ts_pvrows):
            for name in ('front', 'back'):
                out['full', r, name, 'isotropic'] = getattr(
                    ts_row, name).get_param_weighted('isotropic')
    return {k: np.broadcast_to(np.asarray(x, float), v.n)
            for k, x in out.items()}


def judge(case, mon):
    from pvfactors.viewfactors import VFCalculator
    scn = case['scn']
    plain = copy.deepcopy(scn)
    plain['arr'].pop('cut', None)
    V, F, K, E = [], [], [], []
    R = scn['arr']['n_pvrows']
    row, W = case.get('row', 0) % R, []
    names = ['direct'] + (['circumsolar'] if scn['irr']['model'] == 'hybrid'
                          else [])
    for s in (plain, scn):
        eng = sut.fit_engine(s)
        v = view.View(s, eng.pvarray, eng)
        with sut.code('build_ts_vf_matrix'):
            c = VFCalculator()
            c.fit(v.n)
            F.append(np.asarray(c.build_ts_vf_matrix(v.arr), float))
        V.append(v)
        K.append(groups(v))
        E.append({k: v.param(k) for k in names})
        W.append(sides(eng, v, row, names))
    keys = sorted(set(K[0]), key=str)
    mon.ok(set(K[0]) == set(K[1]), 'same-parts',
           'cutting rows changes the other surfaces')
    idx = {k: j for j, k in enumerate(keys)}
    n = V[0].n
    T, LL, EE = [], [], []
    for v, f, ks, e in zip(V, F, K, E):
        m = len(keys)
        A = np.zeros((m, v.ns))
        for j, k in enumerate(ks):
            A[idx.get(k, 0), j] = 1.
        L = np.where(v.L > TINY, v.L, 0.)
        G = f[:v.ns, :v.ns] * L[:, None, :]
        T.append(np.moveaxis(A @ np.moveaxis(G, 2, 0) @ A.T, 0, 2))
        S = f[:v.ns, v.ns] * L
        LL.append(np.stack([A @ L, A @ S]))
        EE.append({k: A @ (L * np.where(L > 0, x, 0.)) for k, x in e.items()})
    for i in range(n):
        st = V[1].step(i)
        tag = st.classes(mon)
        mon.sig(tag)
        if 'sh' in tag:
            mon.hit('partial')
        sc = scn['arr']['pvrow_width']
        big = np.maximum(LL[0][0, :, i], sc)
        mon.close(LL[1][0, :, i], LL[0][0, :, i], 1e-6, 'length',
                  'cutting changes lit or shaded lengths', scale=sc, step=i)
        mon.close(T[1][:, :, i], T[0][:, :, i], 3e-6, 'exchange',
                  'cutting changes the light exchanged between parts',
                  scale=sc, step=i)
        # where the shaded and lit parts are, not only how long they are
        st0 = V[0].step(i)
        for r in range(len(V[0].arr.ts_pvrows)):
            for side in ('front', 'back'):
                for sh in (True, False):
                    a, b = ([(q.lo, q.hi) for q in x.pats if q.kind == 'r' and
                             (q.row, q.side, q.shaded) == (r, side, sh)]
                            for x in (st0, st))
                    mon.leq(ref.symdiff(ref.merge(a, 1e-7),
                                        ref.merge(b, 1e-7)), 0., 1e-6,
                            'same-place', 'cutting moves the %s part of row '
                            '%d %s' % ('shaded' if sh else 'lit', r, side),
                            scale=sc, step=i)
                    mon.leq(ref.measure(b) - ref.measure(ref.merge(b)), 0.,
                            1e-6, 'no-overlap', 'parts overlap on row %d %s'
                            % (r, side), scale=sc, step=i)
        mon.close(LL[1][1, :, i], LL[0][1, :, i], 3e-6, 'sky',
                  'cutting changes the light from the sky', scale=big, step=i)
        # averages over the whole sides, and what the fast mode gives
        for k in W[0]:
            if k[0] == 'fast' and not st.usable:
                continue
            mon.close(W[1][k][i], W[0][k][i], 3e-6, 'side-average:' + k[-1],
                      'cutting changes the average of %s' % (k,), step=i,
                      scale=V[0].scale[i])
        for k in names:
            mon.close(EE[1][k][:, i], EE[0][k][:, i], 3e-6, k + '-total',
                      'cutting changes the light received', step=i,
                      scale=big * V[0].scale[i])
