"""P02: direct shading on the rows is what ray tracing the sun gives."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P02'
RULE = ('random and directed arrays and suns; non-trivial per distinct '
        '(orientation, sun side, number of shaded rows, cut, zenith bin) '
        'situation compared with ray casting')
COUNT = {'quick': 2400, 'thorough': 14000}
REQUIRED = {'step': 1500, 'shade_front': 100, 'shade_back': 100, 'flat': 20,
            'left': 100, 'cut_shaded': 50,
            'slight-shaded': 60}
ASSUMPTIONS = ['timesteps with the sun within 1e-7 of the plane of the rows '
               'are not judged (singular)']
shrink = core.shrink_steps
TOL = 1e-6
STYLES = ['random', 'tracker', 'low_sun', 'low_sun', 'steep', 'back_sun',
          'back_sun', 'flat', 'edge', 'over', 'slight', 'slight']


def corners(tier):
    return cases.corner_cases(model='isotropic')


def gen(rng, k, tier):
    return cases.random_case(rng, k, tier, raised=True, max_zenith=89.9,
                             styles=STYLES)


def judge(case, mon):
    v = view.fitted(case['scn'])
    w = case['scn']['arr']['pvrow_width']
    with sut.code('shaded_length'):
        slen = {(r, name): np.broadcast_to(np.asarray(side.shaded_length,
                                                      float), v.n)
                for r, row in enumerate(v.arr.ts_pvrows)
                for name, side in (('front', row.front), ('back', row.back))}
        seglen = {(r, name, k): np.broadcast_to(np.asarray(
            seg.shaded_length, float), v.n)
            for r, row in enumerate(v.arr.ts_pvrows)
            for name, side in (('front', row.front), ('back', row.back))
            for k, seg in enumerate(side.list_segments)}
        flag = np.broadcast_to(np.asarray(v.arr.has_direct_shading), v.n)
        nseg = {(r, name): len(side.list_segments)
                for r, row in enumerate(v.arr.ts_pvrows)
                for name, side in (('front', row.front), ('back', row.back))}
    for i in range(v.n):
        st = v.step(i)
        g = st.geo
        if abs(g.cosf) < 1e-7:
            mon.ev('skipped-grazing')
            continue
        tag = st.classes(mon)
        slight = 0 < abs(case['scn']['t']['tilt'][i]) < 1.
        mon.sig(tag)
        lit = 'front' if g.cosf > 0 else 'back'
        # the flag is set when some row has a shaded part; it stays unset
        # when the shading is too short to matter
        most = max([ref.measure(g.shaded_interval(r)) for r in range(g.n)])
        if most > 1e-4 or most < 1e-9:
            mon.ok(bool(flag[i]) == (most > 1e-4), 'shading-flag',
                   'has_direct_shading', step=i, got=bool(flag[i]),
                   longest_shaded=most)
        for r in range(g.n):
            want = g.shaded_interval(r)
            mon.hit('slight-shaded', slight and bool(want))
            for side in ('front', 'back'):
                exp = want if side == lit else []
                got = ref.merge([(p.lo, p.hi) for p in st.pats
                                 if p.kind == 'r' and p.row == r
                                 and p.side == side and p.shaded], 1e-7)
                d = ref.symdiff(got, exp)
                mon.leq(d, 0., TOL, 'shaded-part',
                        'row %d %s: shaded part differs from ray casting'
                        % (r, side), scale=w, step=i, got_part=got,
                        ray_cast=exp)
                mon.close(slen[r, side][i], ref.measure(exp), TOL,
                          'shaded-length', 'row %d %s' % (r, side),
                          scale=w, step=i)
                ns = nseg[r, side]
                for k in range(ns):
                    lo, hi = k * w / ns, (k + 1) * w / ns
                    mon.close(seglen[r, side, k][i],
                              ref.overlap(exp, lo, hi), TOL,
                              'segment-shaded-length',
                              'row %d %s segment %d' % (r, side, k),
                              scale=w, step=i)
                    if exp and ns > 1:
                        mon.hit('cut_shaded')
