"""P05: view factors equal independent ray casting."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P05'
RULE = ('random and directed arrays; every row of every view factor matrix '
        'compared with composite Gauss quadrature of ray-cast views; '
        'non-trivial per distinct situation of a judged timestep')
COUNT = {'quick': 690, 'thorough': 7000}
REQUIRED = {'used': 40, 'engine': 40, 'aoi': 40, 'back-segment': 200,
            'step': 500, 'flat': 15, 'over': 40, 'shade_front': 40,
            'shade_back': 20, 'left': 100, 'cut': 100, 'entries': 10000}
ASSUMPTIONS = ['surfaces shorter than 1e-6 m are treated as points']
shrink = core.shrink_steps
TOL = 5e-6


def corners(tier):
    return [dict(c, how=sut.VF_HOW[i % 4])
            for i, c in enumerate(cases.corner_cases(model='isotropic'))]


def gen(rng, k, tier):
    return dict(cases.random_case(rng, k, tier, raised=True, max_zenith=89.9,
                             long_every=0),
                how=sut.VF_HOW[k % 4])


def judge(case, mon):
    how = case.get('how', 'fresh')
    arr, F = sut.vf_of(case['scn'], how)
    v = view.View(case['scn'], arr)
    mon.hit(how)
    back_segments(case['scn'], v, mon)
    for i in range(v.n):
        st = v.step(i)
        mon.sig(st.classes(mon))
        want = st.F()
        rows = [p.pos for p in st.pats]
        cols = rows + [v.ns]
        got = F[:, :, i][np.ix_(rows, cols)]
        w = want[np.ix_(rows, cols)]
        mon.hit('entries', int((w > 1e-9).sum()))
        if not mon.close(got, w, TOL, 'view-factor',
                         'view factor differs from ray casting', step=i):
            d = np.abs(got - w)
            a, b = np.unravel_index(int(np.nanargmax(d)), d.shape)
            mon.violations[-1]['data'].update(
                {'from': v.surfs[rows[a]].label,
                 'to': 'sky' if cols[b] == v.ns
                 else v.surfs[cols[b]].label})


KEYS = ('to_gnd_shaded', 'to_gnd_illum', 'to_pvrow_shaded', 'to_pvrow_illum',
        'to_sky')


def back_segments(scn, v, mon):
    """The views of whole back segments, asked for one at a time."""
    calc = sut.VFCalculator()
    calc.fit(v.n)
    R = scn['arr']['n_pvrows']
    k = int(1e4 * scn['arr']['gcr'])
    for r in sorted({0, k % R, R - 1}):
        segs = v.arr.ts_pvrows[r].back.list_segments
        k = k % len(segs)
        with sut.code('get_vf_ts_pvrow_element'):
            vf = calc.get_vf_ts_pvrow_element(
                r, segs[k], v.arr.ts_pvrows, v.arr.ts_ground,
                v.arr.rotation_vec, v.arr.width)
            vf = {x: np.broadcast_to(np.asarray(vf[x], float), v.n)
                  for x in KEYS + ('to_gnd_total', 'to_pvrow_total')}
        for i in range(0, v.n, 1 + v.n // 6):
            st = v.step(i)
            g = st.geo
            p = ref.Patch(-1, 'r', r, 'back', k * g.w / len(segs),
                          (k + 1) * g.w / len(segs), False)
            if not st.usable:
                continue
            want = ref.fast_vf(g, st.pats, p)
            mon.hit('back-segment')
            for x in KEYS:
                mon.close(vf[x][i], want[x], TOL, 'segment-view:' + x,
                          'row %d back segment %d' % (r, k), step=i)
            mon.close(vf['to_gnd_total'][i], want['to_gnd_shaded']
                      + want['to_gnd_illum'], TOL, 'segment-view:ground',
                      'row %d back segment %d' % (r, k), step=i)
            mon.close(vf['to_pvrow_total'][i], want['to_pvrow_shaded']
                      + want['to_pvrow_illum'], TOL, 'segment-view:rows',
                      'row %d back segment %d' % (r, k), step=i)
