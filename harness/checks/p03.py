"""P03: the ground is tiled once, and its shaded part is the union of the
shadows of the rows."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P03'
RULE = ('random and directed arrays and suns; non-trivial per distinct '
        '(orientation, sun side, number of separate shadows, rows, zenith '
        'bin) situation')
COUNT = {'quick': 2100, 'thorough': 16000}
REQUIRED = {'step': 1500, 'ground_overlap': 100, 'shadow_clipped': 30,
            'flat': 20, 'left': 100, 'separate_shadows': 200, 'cut-point': 1000,
            'direct': 100}


def shrink(case):
    return core.shrink_steps(case) if 'scn' in case else []


TOL = 1e-6
STYLES = ['random', 'tracker', 'low_sun', 'low_sun', 'steep', 'back_sun',
          'flat', 'edge', 'over']


def corners(tier):
    return cases.corner_cases(model='isotropic')


def gen(rng, k, tier):
    if k % 10 == 7:
        return {'direct': gen_direct(rng)}
    return cases.random_case(rng, k, tier, raised=True, max_zenith=89.9,
                             styles=STYLES)


def judge(case, mon):
    if 'direct' in case:
        return judge_direct(case['direct'], mon)
    v = view.fitted(case['scn'])
    X = ref.X_GROUND
    gs = [s for s in v.surfs if s.kind == 'g']
    with sut.code('ground lengths'):
        glen = np.broadcast_to(np.asarray(v.arr.ts_ground.length, float), v.n)
        slen = np.broadcast_to(np.asarray(v.arr.ts_ground.shaded_length,
                                          float), v.n)
    with sut.code('cut points'):
        gnd = v.arr.ts_ground
        R = case['scn']['arr']['n_pvrows']
        cuts = [np.stack([np.broadcast_to(np.asarray(c.x, float), v.n),
                          np.broadcast_to(np.asarray(c.y, float)
                                          - v.yg, v.n)], 1)
                for c in gnd.cut_point_coords]
        halves = {(r, side): sum(
            np.broadcast_to(np.asarray(x.length, float), v.n) for x in
            gnd.ts_surfaces_side_of_cut_point(side, r))
            for r in range(R) for side in ('left', 'right')}
        shad = {(r, side): sum(
            np.broadcast_to(np.asarray(x.length, float), v.n) for x in f(r))
            for r in range(R) for side, f in (
                ('left', gnd.shadow_coords_left_of_cut_point),
                ('right', gnd.shadow_coords_right_of_cut_point))}
        elems = [(e.shaded, sut.coords(e, v.n)) for e in
                 list(gnd.shadow_elements) + list(gnd.illum_elements)]
    flags = sorted(bool(s) for s, _ in elems)
    mon.ok(flags == [False] * (R + 1) + [True] * R, 'elements',
           'one shadow per row and lit ground around', got=flags)
    for el, (_, c) in zip(list(gnd.shadow_elements)
                          + list(gnd.illum_elements), elems):
        with sut.code('reading a ground element'):
            got = [np.stack([np.broadcast_to(np.asarray(z, float), v.n)
                             for z in (q.x, q.y)], 1)
                   for q in (el.b1, el.b2, el.centroid)]
            ln = np.broadcast_to(np.asarray(el.length, float), v.n)
        mon.close(got, [c[:, 0], c[:, 1], c.mean(1)], 1e-9, 'element-points',
                  'ends and centre of a ground element', scale=2. * X)
        mon.close(ln, np.hypot(*(c[:, 1] - c[:, 0]).T), 1e-9,
                  'element-length', 'length of a ground element',
                  scale=2. * X)
    y = np.stack([v.C[s.pos][:, :, 1] for s in gs])
    mon.close(y, 0., 1e-9, 'ground-flat', 'ground surfaces lie on y = 0')
    nv = [np.asarray(s.ts.n_vector, float) for s in gs]
    for s, x in zip(gs, nv):
        if x.shape and x.size in (2, 2 * v.n):
            x = x.reshape(2, -1)
            live = np.broadcast_to(v.L[s.pos] > ref.TINY, v.n)
            y2 = np.broadcast_to(x[1], v.n)[live]
            mon.leq(-y2, 0., -1e-12, 'ground-normal', 'normal points down')
    for i in range(v.n):
        st = v.step(i)
        mon.sig(st.classes(mon))
        sh = [(p.lo, p.hi) for p in st.pats if p.kind == 'g' and p.shaded]
        il = [(p.lo, p.hi) for p in st.pats if p.kind == 'g' and not p.shaded]
        allp = sorted(sh + il)
        tot = sum(b - a for a, b in allp)
        mon.close(tot, 2 * X, TOL, 'ground-covered-once',
                  'surfaces do not add up to the ground', step=i)
        mon.leq(ref.symdiff(ref.merge(allp, 1e-7), [(-X, X)]), 0., TOL,
                'ground-covered', 'ground not covered', step=i)
        want = st.geo.ground_shadows()
        for x, rule in ((True, 'shadow-elements'), (False, 'lit-elements')):
            e = ref.merge([tuple(sorted(c[i, :, 0])) for s, c in elems
                           if s == x], 1e-7)
            w2 = want if x else holes(want, X)
            mon.leq(ref.symdiff(e, w2), 0., TOL, rule,
                    'ground elements', step=i, got_part=e, ray_cast=w2)
        with sut.code('surfaces at a timestep'):
            pts = [[tuple(sorted(q[0] for q in z.coords)) for z in f(i)]
                   for f in (gnd.non_point_shaded_surfaces_at,
                             gnd.non_point_illum_surfaces_at,
                             gnd.non_point_surfaces_at)]
            npt = gnd.n_non_point_surfaces_at(i)
        mon.leq(ref.symdiff(ref.merge(pts[0], 1e-7), want), 0., TOL,
                'surfaces-at-shaded', 'shaded ground at a timestep', step=i)
        mon.close(ref.measure(pts[1]) + ref.measure(pts[0]), 2 * X, TOL,
                  'surfaces-at-all', 'ground at a timestep', step=i)
        mon.ok(npt == len(pts[2]) == len(pts[0]) + len(pts[1]),
               'surfaces-at-count', 'number of surfaces', step=i)
        got = ref.merge(sh, 1e-7)
        mon.leq(ref.symdiff(got, want), 0., TOL, 'ground-shadows',
                'shaded ground differs from the cast shadows', step=i,
                got_part=got, ray_cast=want)
        mon.close(slen[i], ref.measure(want), TOL, 'ground-shaded-length',
                  'shaded_length', step=i)
        mon.close(glen[i], 2 * X, TOL, 'ground-length', 'ground length',
                  step=i)
        if len(want) > 1:
            mon.hit('separate_shadows')
        if want and (want[0][0] <= -X + 1e-9 or want[-1][1] >= X - 1e-9) \
                or len(want) == 0:
            mon.hit('shadow_clipped')
        # the plane of a row splits the ground in what its front and what its
        # back can see
        if abs(st.geo.u[1]) < 1e-6:
            continue
        for c in st.geo.cen:
            x = c[0] - c[1] * st.geo.u[0] / st.geo.u[1]
            if abs(x) > X:
                continue
            mon.hit('cut-point')
            r = int(round((c[0] - st.geo.cen[0][0]) / st.geo.d)) \
                if st.geo.n > 1 else 0
            mon.close(cuts[r][i], [x, 0.], 1e-6 * (1 + abs(x)), 'cut-place',
                      'cut point of row %d' % r, step=i)
            tol = 1e-6 * (1 + abs(x))
            mon.close([halves[r, 'left'][i], halves[r, 'right'][i]],
                      [x + X, X - x], 4 * tol, 'cut-sides',
                      'ground on the sides of the cut point of row %d' % r,
                      step=i)
            mon.close([shad[r, 'left'][i], shad[r, 'right'][i]],
                      [ref.overlap(want, -X, x), ref.overlap(want, x, X)],
                      4 * tol, 'cut-shadows', 'shadows on the sides of the '
                      'cut point of row %d' % r, step=i)
            split = min([min(x - lo, hi - x) for lo, hi in allp if lo < x < hi]
                        + [0.])
            mon.leq(split, 0., TOL * (1 + abs(x)), 'cut-points',
                    'a ground surface extends on both sides of the plane of '
                    'a row', step=i, x=x)


def holes(iv, X):
    """What a union of intervals leaves of [-X, X]."""
    out, x = [], -X
    for lo, hi in iv:
        if lo > x:
            out.append((x, lo))
        x = max(x, hi)
    if x < X:
        out.append((x, X))
    return out


def gen_direct(rng):
    """Ground built from given shadows: disjoint, or overlapping when
    flagged, and given cut points."""
    n, m, c = (int(rng.integers(1, 6)), int(rng.integers(1, 5)),
               int(rng.integers(1, 4)))
    sh, flags, cut = [], [], []
    for _ in range(n):
        span = rng.choice([20., 90., 130.])
        x = np.sort(rng.uniform(-span, span, size=2 * m)).round(5)
        f = bool(rng.random() < .3)
        sh.append(x.tolist())
        flags.append(f)
        cut.append(np.sort(rng.uniform(-120., 120., size=c)).round(5).tolist())
    return {'sh': sh, 'flags': flags if rng.random() < .5 else None,
            'cut': cut, 'y': round(float(rng.choice([0., rng.uniform(-3, 3)])),
                                   3)}


def judge_direct(d, mon):
    """Shadows and cut points given by the user, tiled by the ground."""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    X = ref.X_GROUND
    sh, cut = np.array(d['sh'], float), np.array(d['cut'], float)
    n, m = len(sh), sh.shape[1] // 2
    yv = d['y'] * np.ones(n)
    coords = [[[sh[:, 2 * k].copy(), yv.copy()],
               [sh[:, 2 * k + 1].copy(), yv.copy()]] for k in range(m)]
    fl = None if d['flags'] is None else np.array(d['flags'])
    with sut.code('from_ordered_shadows_coords'):
        g = TsGround.from_ordered_shadows_coords(
            np.array(coords), flag_overlap=fl, y_ground=d['y'],
            cut_point_coords=[TsPointCoords(cut[:, k].copy(), yv.copy())
                              for k in range(cut.shape[1])],
            param_names=['qinc'])
        surf = [(bool(s.shaded), sut.coords(s, n)) for s in
                g.all_ts_surfaces]
        ln = np.broadcast_to(np.asarray(g.length, float), n)
        sl = np.broadcast_to(np.asarray(g.shaded_length, float), n)
        side = {(k, x): sum(np.broadcast_to(np.asarray(
            s.length, float), n) for s in
            g.ts_surfaces_side_of_cut_point(x, k))
            for k in range(cut.shape[1]) for x in ('left', 'right')}
    for i in range(n):
        mon.hit('direct')
        mon.sig('direct', m, cut.shape[1], fl is not None and bool(fl[i]))
        want = []
        for k in range(m):
            lo, hi = sh[i, 2 * k], sh[i, 2 * k + 1]
            if fl is not None and fl[i] and k < m - 1:
                hi = sh[i, 2 * k + 2]          # up to the next shadow
            lo, hi = np.clip([lo, hi], -X, X)
            if hi > lo:
                want.append((lo, hi))
        want = ref.merge(want)
        got = [tuple(sorted(c[i, :, 0])) for s, c in surf if s]
        lit = [tuple(sorted(c[i, :, 0])) for s, c in surf if not s]
        mon.leq(ref.symdiff(ref.merge(got), want), 0., TOL, 'direct-shadows',
                'given shadows', step=i)
        mon.leq(ref.symdiff(ref.merge(lit, 1e-9), holes(want, X)), 0., TOL,
                'direct-lit', 'ground between given shadows', step=i)
        mon.close(ref.measure(got) + ref.measure(lit), 2 * X, TOL,
                  'direct-once', 'ground covered once', step=i)
        mon.close([ln[i], sl[i]], [2 * X, ref.measure(want)], TOL,
                  'direct-lengths', 'lengths', step=i)
        mon.close(np.array([c[i, :, 1] for _, c in surf]), d['y'], 1e-9,
                  'direct-height', 'height of the ground', step=i)
        for k in range(cut.shape[1]):
            x = np.clip(cut[i, k], -X, X)
            mon.close([side[k, 'left'][i], side[k, 'right'][i]],
                      [x + X, X - x], TOL, 'direct-sides',
                      'ground on the sides of a cut point', step=i)
            split = min([min(x - lo, hi - x) for lo, hi in got + lit
                         if lo < x < hi] + [0.])
            mon.leq(split, 0., TOL, 'direct-cut', 'cut point ignored',
                    step=i)
