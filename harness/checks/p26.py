"""P26: the building blocks of the timeseries geometry are what they were
built from, at every timestep, and so are their snapshots."""
import numpy as np
from .. import core, ref, sut

ID = 'P26'
RULE = ('points, lines, surfaces, collections, segments, rows and grounds '
        'built directly from random and degenerate coordinates and raw inputs '
        '(not from an array); non-trivial per distinct kind of block, slope, '
        'cut and extent of the shade of a judged timestep')
COUNT = {'quick': 10500, 'thorough': 200000}
REQUIRED = {'line': 3000, 'horizontal': 100, 'vertical': 100, 'point': 100,
            'surface': 1000, 'empty': 50, 'row': 1500, 'row-flat': 50,
            'row-partial': 300, 'row-all': 50, 'row-none': 100, 'over': 100,
            'ground': 300, 'tree': 300, 'snapshot': 1500}
TOL = 1e-9


def shrink(case):
    n = case['n']
    if n <= 1:
        return
    for i in range(n):
        c = dict(case, n=1)
        for k in case.get('per', []):
            c[k] = [case[k][i]]
        yield c


def corners(tier):
    out = []
    for rot in (0., -0., 45., -45., 90., -90., 1e-2, 120., -150., 179.):
        for s in (0., .3, 1., 2.):
            out.append({'kind': 'row', 'n': 1, 'per': ['rot', 'sf', 'sb'],
                        'rot': [rot], 'sf': [s], 'sb': [2. - s],
                        'xy': [3., -1.], 'w': 2., 'cut': {'front': 3,
                                                          'back': 2},
                        'index': 4})
    return out


def _f(x, nd=6):
    return np.round(np.asarray(x, float), nd).tolist()


def gen_lines(rng, n, m):
    """(n, m, 2, 2): lines of n timesteps, ordinary and degenerate."""
    c = rng.uniform(-10., 10., size=(n, m, 2, 2))
    for i in range(n):
        for k in range(m):
            r = rng.random()
            if r < .1:
                c[i, k, 1, 1] = c[i, k, 0, 1]       # horizontal
            elif r < .2:
                c[i, k, 1, 0] = c[i, k, 0, 0]       # vertical
            elif r < .3:
                c[i, k, 1] = c[i, k, 0]             # point
            elif r < .35:
                c[i, k] = np.round(c[i, k])
            elif r < .4:
                c[i, k] *= 1e-3
    return c


def gen(rng, k, tier):
    n = int(rng.integers(1, 9))
    kind = ('row', 'line', 'row', 'tree', 'ground')[k % 5]
    if kind == 'line':
        return {'kind': kind, 'n': n, 'per': ['c', 'p'],
                'c': _f(gen_lines(rng, n, 3)),
                'p': _f(rng.uniform(0, 900., size=(n, 2))),
                'shaded': bool(rng.random() < .5), 'ix': int(rng.integers(99)),
                'nv': bool(rng.random() < .7),
                'dead': bool(rng.random() < .15)}
    if kind == 'tree':
        # a line in one piece, broken in surfaces of both kinds
        q = int(rng.integers(1, 6))
        t = np.sort(rng.uniform(0., 1., size=(n, q - 1)))
        t[rng.random(size=t.shape) < .2] = 0.       # empty surfaces
        return {'kind': kind, 'n': n, 'per': ['c', 't', 'p'],
                'c': _f(gen_lines(rng, n, 1)[:, 0]), 't': _f(np.sort(t)),
                'p': _f(rng.uniform(0, 900., size=(n, q))),
                'sh': [bool(x) for x in rng.random(q) < .5]}
    w = round(float(rng.uniform(.1, 6.)), 4)
    rot = rng.uniform(-80., 80., size=n)
    for i in range(n):
        r = rng.random()
        if r < .1:
            rot[i] = rng.choice([0., -0.])
        elif r < .25:
            rot[i] = rng.choice([90., -90., rng.uniform(91., 179.),
                                 rng.uniform(-179., -91.)])
    if kind == 'ground':
        m = int(rng.integers(1, 5))
        gap = rng.uniform(3., 9., size=m) * w
        return {'kind': kind, 'n': n, 'per': ['rot', 'al'], 'rot': _f(rot),
                'al': _f(rng.uniform(15., 165., size=n)), 'w': w,
                'x': _f(np.cumsum(gap) - rng.uniform(0., 30.)),
                'y': _f(rng.uniform(.51, 1.5, size=m) * w),
                'y0': round(float(rng.choice([0., rng.uniform(-5., 5.)])), 4)}
    shade = []
    for _ in range(2):
        s = rng.uniform(0., w, size=n)
        s[rng.random(n) < .2] = 0.
        s[rng.random(n) < .15] = w
        shade.append(s)
    cut = {}
    for side in ('front', 'back'):
        if rng.random() < .75:
            cut[side] = int(rng.integers(1, 8))
    return {'kind': 'row', 'n': n, 'per': ['rot', 'sf', 'sb'], 'rot': _f(rot),
            'sf': _f(shade[0]), 'sb': _f(shade[1]), 'w': w, 'cut': cut,
            'xy': _f(rng.uniform(-40., 40., size=2)),
            'index': int(rng.integers(9))}


def judge(case, mon):
    {'line': judge_line, 'tree': judge_tree, 'row': judge_row,
     'ground': judge_ground}[case['kind']](case, mon)


def pt(p, n):
    return np.stack([np.broadcast_to(np.asarray(v, float), n)
                     for v in (p.x, p.y)], 1)


def ends_judged(mon, what, got_hi, got_lo, a, b):
    """Highest and lowest points: the ends, in the right order (horizontal
    lines have both at the same height, and still two ends)."""
    for i in range(len(a)):
        hi, lo = got_hi[i], got_lo[i]
        top, bot = (a[i], b[i]) if a[i, 1] > b[i, 1] else (b[i], a[i])
        if a[i, 1] == b[i, 1]:
            if abs(lo[0] - top[0]) <= abs(lo[0] - bot[0]):
                top, bot = bot, top
        mon.close([hi, lo], [top, bot], TOL, 'extreme-points',
                  'highest and lowest points of a ' + what,
                  scale=1. + np.abs(a[i]).max())


def new_surface(c, nv=None, shaded=False, index=None, names=None):
    """A timeseries surface of (n, 2, 2) coordinates."""
    from pvfactors.geometry.timeseries import TsLineCoords, TsSurface
    line = TsLineCoords.from_array(np.moveaxis(c, 0, -1).copy())
    return TsSurface(line, n_vector=None if nv is None else nv.copy(),
                     param_names=names, index=index, shaded=shaded)


def normals(c):
    d = c[:, 1] - c[:, 0]
    return np.stack([-d[:, 1], d[:, 0]])


def judge_line(case, mon):
    from pvfactors.geometry.timeseries import TsLineCoords, TsPointCoords
    n = case['n']
    C = np.array(case['c'], float).reshape(n, 3, 2, 2)
    p = np.array(case['p'], float).reshape(n, 2)
    if case['dead']:
        C[:, :, 1] = C[:, :, 0]
    for k in range(C.shape[1]):
        c = C[:, k]
        a, b = c[:, 0], c[:, 1]
        L = np.hypot(*(b - a).T)
        with sut.code('lines and points'):
            pa = TsPointCoords(a[:, 0].copy(), a[:, 1].copy())
            pb = TsPointCoords.from_array(b.T.copy())
            line = (TsLineCoords(pa, pb) if k else
                    TsLineCoords.from_array(np.moveaxis(c, 0, -1).copy()))
            parts = [(line.b1, a), (line.b2, b), (pa, a), (pb, b),
                     (line.centroid, (a + b) / 2.)]
            got = [pt(q, n) for q, _ in parts]
            arrs = [np.asarray(q.as_array, float) for q, _ in parts]
            ats = [[np.asarray(q.at(i), float) for i in range(n)]
                   for q, _ in parts]
            ln, arr = np.asarray(line.length), np.asarray(line.as_array)
            lats = [np.asarray(line.at(i), float) for i in range(n)]
            hi, lo = pt(line.highest_point, n), pt(line.lowest_point, n)
        for (q, want), g, ar, at in zip(parts, got, arrs, ats):
            mon.close(g, want, TOL, 'point', 'coordinates of a point',
                      scale=1. + np.abs(want).max())
            mon.close(ar, want.T, TOL, 'point-array', 'array of a point',
                      scale=1. + np.abs(want).max())
            mon.close(at, want, TOL, 'point-at', 'point at a timestep',
                      scale=1. + np.abs(want).max())
        mon.close(ln, L, TOL, 'line-length', 'length of a line',
                  scale=1. + L.max())
        mon.close(arr, np.moveaxis(c, 0, -1), TOL, 'line-array',
                  'array of a line')
        mon.close(lats, c, TOL, 'line-at', 'line at a timestep')
        ends_judged(mon, 'line', hi, lo, a, b)
        mon.hit('line', n)
        mon.hit('horizontal', int(((a[:, 1] == b[:, 1]) & (L > 0)).sum()))
        mon.hit('vertical', int(((a[:, 0] == b[:, 0]) & (L > 0)).sum()))
        mon.hit('point', int((L == 0).sum()))
        for i in range(n):
            mon.sig('line', np.sign(b[i] - a[i]).tolist(), L[i] == 0)
        # --- as a surface
        nv = normals(c) if case['nv'] else None
        names = ['qinc', 'rho']
        with sut.code('timeseries surface'):
            s = new_surface(c, nv, case['shaded'], case['ix'], names)
            none = s.get_param('qinc')
            s.update_params({'qinc': p[:, 0].copy(), 'rho': .25,
                             'note': {'a': 1}})
            back = np.asarray(s.get_param('qinc'), float)
            u, empty = s.u_vector, bool(s.is_empty)
            sl = np.asarray(s.length, float)
            sg = [pt(x, n) for x in (s.b1, s.b2, s.centroid, s.highest_point,
                                     s.lowest_point)]
            geoms = [s.at(i) for i in range(n)]
        mon.ok(none is None, 'surface-params', 'parameters start empty')
        mon.close(back, p[:, 0], 0., 'surface-params', 'updated parameter')
        mon.close(sl, L, TOL, 'surface-length', scale=1. + L.max())
        mon.close(sg[:3], [a, b, (a + b) / 2.], TOL, 'surface-points',
                  'ends and centre of a surface')
        ends_judged(mon, 'surface', sg[3], sg[4], a, b)
        if nv is None:
            mon.ok(u is None, 'u-vector', 'direction without normal')
        else:
            mon.close((np.asarray(u) * nv).sum(0), 0., 1e-9, 'u-vector',
                      'direction orthogonal to the normal', scale=1e2)
            mon.close(np.hypot(*np.asarray(u)), np.hypot(*nv), TOL,
                      'u-vector', 'length of the direction', scale=1e2)
        if not 1e-9 < L.sum() < 1e-6:
            mon.ok(empty == (L.sum() < 1e-8), 'surface-empty',
                   'a surface that never has a length is empty', got=empty)
        mon.hit('empty', empty)
        for i, g in enumerate(geoms):
            mon.hit('surface')
            if 1e-9 < L[i] < 1e-6:
                continue
            if L[i] < 1e-8:
                mon.ok(g.is_empty, 'surface-at-empty',
                       'a point gives an empty geometry')
                continue
            mon.hit('snapshot')
            judge_snap(mon, g, c[i], case['shaded'], case['ix'],
                       None if nv is None else nv[:, i],
                       {'qinc': p[i, 0], 'rho': .25, 'note': {'a': 1}})


def judge_snap(mon, g, c, shaded, index, nv, params):
    with sut.code('surface at a timestep'):
        xy = np.array(g.coords, float)
        par, nvec, ln = dict(g.params), g.n_vector, g.length
        got = (bool(g.shaded), g.index)
    mon.close(xy, c, TOL, 'snapshot-coords', 'coordinates of a snapshot')
    mon.close(ln, np.hypot(*(c[1] - c[0])), TOL, 'snapshot-length', scale=1e2)
    mon.ok(got == (bool(shaded), index), 'snapshot-flags',
           'shading and index of a snapshot', got=got)
    if nv is not None:
        mon.close(np.asarray(nvec, float) / np.hypot(*nv), nv / np.hypot(*nv),
                  1e-9, 'snapshot-normal', 'normal of a snapshot')
    for k, want in params.items():
        v = par.get(k, 'missing')
        mon.ok(v == want, 'snapshot-params', 'parameter %s' % k, got=v,
               want=want)


def judge_tree(case, mon):
    """Surfaces in collections, in a segment, in a side."""
    from pvfactors.geometry.pvrow import TsSegment, TsSide
    from pvfactors.geometry.timeseries import TsLineCoords, TsShadeCollection
    n = case['n']
    c = np.array(case['c'], float).reshape(n, 2, 2)
    q = len(case['sh'])
    t = np.concatenate([np.zeros((n, 1)),
                        np.array(case['t'], float).reshape(n, q - 1),
                        np.ones((n, 1))], 1)
    p = np.array(case['p'], float).reshape(n, q)
    sh = np.array(case['sh'], bool)
    L = np.hypot(*(c[:, 1] - c[:, 0]).T)
    W = np.diff(t, axis=1) * L[:, None]
    nv = normals(c)
    with sut.code('collections, segment and side'):
        ts = []
        for k in range(q):
            e = np.stack([c[:, 0] + t[:, j:j + 1] * (c[:, 1] - c[:, 0])
                          for j in (k, k + 1)], 1)
            s = new_surface(e, nv, sh[k], k)
            s.update_params({'qinc': p[:, k].copy()})
            ts.append(s)
        col = [TsShadeCollection([s for s, x in zip(ts, sh) if x == f], f)
               for f in (False, True)]
        seg = TsSegment(TsLineCoords.from_array(np.moveaxis(c, 0, -1).copy()),
                        col[0], col[1], index=7, n_vector=nv)
        side = TsSide([seg], n_vector=nv)
        lens = [np.broadcast_to(np.asarray(x.length, float), n)
                for x in (col[0], col[1], seg, side)]
        shl = [np.broadcast_to(np.asarray(x.shaded_length, float), n)
               for x in (seg, side)]
        num = [x.n_ts_surfaces for x in (col[0], col[1], seg, side)]
        lst = [list(x.all_ts_surfaces) for x in (seg, side)]
        ww = [np.broadcast_to(np.asarray(x.get_param_ww('qinc'), float), n)
              for x in (col[0], col[1], seg, side)]
        cen = pt(seg.centroid, n)
        hi, lo = pt(seg.highest_point, n), pt(seg.lowest_point, n)
        snaps = [[(bool(s.shaded), s.index, np.array(s.coords, float),
                   s.params['qinc']) for s in x]
                 for i in range(n) for x in
                 (seg.surfaces_at_idx(i), side.surfaces_at_idx(i))]
        cols = [[x.at(i) for x in col] for i in range(n)]
        cln = [[(float(x.length), len(x.list_surfaces), bool(x.shaded))
                for x in y] for y in cols]
    w0, w1 = W[:, ~sh].sum(1), W[:, sh].sum(1)
    sc = 1. + L.max()
    mon.close(lens, [w0, w1, w0 + w1, w0 + w1], TOL, 'tree-length',
              'lengths of collections, segment, side', scale=sc)
    mon.close(shl, [w1, w1], TOL, 'tree-shaded-length', scale=sc)
    mon.ok(num == [int((~sh).sum()), int(sh.sum()), q, q], 'tree-count',
           'number of surfaces', got=num)
    mon.ok(all(sorted(map(id, x)) == sorted(map(id, ts)) for x in lst),
           'tree-list', 'surfaces of segment and side')
    e0, e1 = (W * p)[:, ~sh].sum(1), (W * p)[:, sh].sum(1)
    mon.close(ww, [e0, e1, e0 + e1, e0 + e1], 1e-9, 'tree-weighted',
              'sums weighted by the lengths', scale=1e3 * sc)
    mon.close(cen, c.mean(1), TOL, 'tree-centre', scale=1e2)
    ends_judged(mon, 'segment', hi, lo, c[:, 0], c[:, 1])
    for i in range(n):
        mon.hit('tree')
        if ((W[i] > 1e-9) & (W[i] < 1e-6)).any():
            continue
        real = W[i] > 1e-8
        mon.sig('tree', q, real.tolist(), sh.tolist())
        for snap in (snaps[2 * i], snaps[2 * i + 1]):
            want = sorted(k for k in range(q) if real[k])
            mon.ok(sorted(x[1] for x in snap) == want, 'tree-snapshot',
                   'surfaces of a snapshot', got=[x[1] for x in snap],
                   want=want)
            for f, k, xy, v in snap:
                e = c[i, 0] + t[i, k:k + 2, None] * (c[i, 1] - c[i, 0])
                mon.close(xy, e, TOL, 'tree-snapshot-coords', scale=1e2)
                mon.ok(f == sh[k] and v == p[i, k], 'tree-snapshot-values',
                       got=[f, v], want=[sh[k], p[i, k]])
                mon.hit('snapshot')
        for f, (ln, m, flag) in enumerate(cln[i]):
            mon.ok(flag == bool(f) and m == int((real & (sh == f)).sum()),
                   'tree-collection', 'collection at a timestep', got=[m, flag])
            mon.close(ln, W[i][real & (sh == f)].sum(), 1e-8,
                      'tree-collection-length', scale=sc)


def judge_row(case, mon):
    from pvfactors.geometry.pvrow import TsPVRow
    n, w = case['n'], case['w']
    rot = np.array(case['rot'], float)
    sh = {'front': np.array(case['sf'], float),
          'back': np.array(case['sb'], float)}
    x0, y0 = case['xy']
    with sut.code('TsPVRow.from_raw_inputs'):
        row = TsPVRow.from_raw_inputs(
            (x0, y0), w, rot.copy(), dict(case['cut']), sh['front'].copy(),
            sh['back'].copy(), index=case['index'], param_names=['qinc'])
        full = sut.coords(_c(row.full_pvrow_coords), n)
        cen, hi = pt(row.centroid, n), pt(row.highest_point, n)
        ln = np.broadcast_to(np.asarray(row.length, float), n)
        idx, ns = row.index, row.n_ts_surfaces
        nall = len(row.all_ts_surfaces)
        sides = {}
        for name in ('front', 'back'):
            s = getattr(row, name)
            sides[name] = dict(
                nv=np.asarray(s.n_vector, float),
                ln=np.broadcast_to(np.asarray(s.length, float), n),
                sl=np.broadcast_to(np.asarray(s.shaded_length, float), n),
                seg=[(sut.coords(g, n),
                      np.broadcast_to(np.asarray(g.length, float), n),
                      np.broadcast_to(np.asarray(g.shaded_length, float), n),
                      g.index,
                      [sut.coords(z, n) for z in g.illum.list_ts_surfaces],
                      [sut.coords(z, n) for z in g.shaded.list_ts_surfaces])
                     for g in s.list_segments])
        snaps = [row.at(i) for i in range(n)]
    r = np.deg2rad(rot)
    u = np.stack([np.cos(r), np.sin(r)], 1)
    mid = np.array([x0, y0])
    a, b = mid - u * w / 2., mid + u * w / 2.
    nrm = np.stack([-u[:, 1], u[:, 0]])
    sc = 1. + np.abs(mid).max() + w
    mon.close(full, np.stack([a, b], 1), TOL, 'row-coords',
              'coordinates of the row', scale=sc)
    mon.close(cen, np.broadcast_to(mid, (n, 2)), TOL, 'row-centre', scale=sc)
    mon.close(ln, 2. * w, TOL, 'row-length', scale=sc)
    mon.close(hi[:, 1], np.maximum(a[:, 1], b[:, 1]), TOL, 'row-highest',
              scale=sc)
    mon.ok(idx == case['index'], 'row-index', got=idx)
    n_seg = {k: case['cut'].get(k, 1) for k in ('front', 'back')}
    mon.ok(ns == nall == 2 * sum(n_seg.values()), 'row-count',
           'number of surfaces', got=[ns, nall])
    for name, sg in (('front', 1.), ('back', -1.)):
        d = sides[name]
        mon.close(d['nv'] / np.hypot(*d['nv']), sg * nrm, 1e-9, 'row-normal',
                  'normal of the %s' % name)
        mon.close(d['ln'], w, TOL, 'side-length', scale=sc)
        # shade from the lowest end, never on a flat row
        S = np.where(rot == 0., 0., sh[name])
        mon.close(d['sl'], S, 1e-8, 'side-shaded-length',
                  'shaded length of the %s' % name, scale=sc)
        m = n_seg[name]
        if not mon.ok(len(d['seg']) == m, 'side-cut', 'segments of the %s'
                      % name, got=len(d['seg'])):
            continue
        low_first = rot >= 0.
        for k, (co, gl, gs, gi, il, so) in enumerate(d['seg']):
            t0, t1 = w * k / m, w * (k + 1) / m     # from the first end
            mon.ok(gi == k, 'segment-index', got=gi)
            mon.close(co, np.stack([a + u * t0, a + u * t1], 1), TOL,
                      'segment-coords', 'segment %d of the %s' % (k, name),
                      scale=sc)
            # extent of the shade in the segment
            lo = np.where(low_first, t0, w - t1)
            gw = np.clip(S - lo, 0., w / m)
            mon.close(gl, w / m, TOL, 'segment-length', scale=sc)
            mon.close(gs, gw, 1e-8, 'segment-shaded-length',
                      'shade of segment %d of the %s' % (k, name), scale=sc)
            p0 = np.where(low_first, t0, t1)        # low end of the segment
            p1 = np.where(low_first, t0 + gw, t1 - gw)
            p2 = np.where(low_first, t1, t0)
            for got, e0, e1, rule in ((so, p0, p1, 'segment-shade'),
                                      (il, p1, p2, 'segment-lit')):
                if not mon.ok(len(got) == 1, rule, 'one surface', got=len(got)):
                    continue
                want = [np.sort(np.stack([e0, e1]), 0)]
                tt = ((got[0] - a[:, None]) * u[:, None]).sum(-1)
                off = ((got[0] - a[:, None]) * nrm.T[:, None]).sum(-1)
                mon.close(np.sort(tt, 1).T, want[0], 1e-8, rule,
                          'extent in segment %d of the %s' % (k, name),
                          scale=sc)
                mon.close(off, 0., 1e-8, rule + '-plane',
                          'out of the plane of the row', scale=sc)
        for i in range(n):
            kind = ('none' if S[i] < 1e-9 else 'all' if S[i] > w - 1e-9
                    else 'partial')
            mon.hit('row')
            mon.hit('row-' + kind)
            mon.hit('row-flat', rot[i] == 0.)
            mon.hit('over', abs(rot[i]) > 90.)
            mon.sig('row', name, int(rot[i] // 30.), kind, m)
            with sut.code('row at a timestep'):
                g = getattr(snaps[i], name)
                surf = [(bool(z.shaded), float(z.length)) for z in
                        g.all_surfaces]
                sl, tl = float(g.shaded_length), float(g.length)
            mon.hit('snapshot')
            mon.close([sl, tl], [S[i], w], 1e-7, 'snapshot-side',
                      'shaded and total length of a snapshot', scale=sc)
            for f in (True, False):
                mon.close(sum(x for z, x in surf if z == f),
                          S[i] if f else w - S[i], 1e-7, 'snapshot-surfaces',
                          'surfaces of a snapshot', scale=sc)


class _c(object):
    """A line, read as a surface would be."""

    def __init__(self, coords):
        self.coords = coords


def judge_ground(case, mon):
    """Rows at any place, over a ground at any height, built one by one."""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.pvrow import TsPVRow
    n, w, yg = case['n'], case['w'], case['y0']
    rot, al = (np.array(case[k], float) for k in ('rot', 'al'))
    X = ref.X_GROUND
    zero = np.zeros(n)
    m = len(case['x'])
    cen = [np.array([x, y + yg]) for x, y in zip(case['x'], case['y'])]
    with sut.code('from_ts_pvrows_and_angles'):
        rows = [TsPVRow.from_raw_inputs(tuple(c), w, rot.copy(), {},
                                        zero.copy(), zero.copy(), index=k)
                for k, c in enumerate(cen)]
        g = TsGround.from_ts_pvrows_and_angles(
            rows, np.deg2rad(al), rot.copy(), y_ground=yg)
        surf = [(bool(s.shaded), sut.coords(s, n)) for s in g.all_ts_surfaces]
        cuts = [pt(c, n) for c in g.cut_point_coords]
    r = np.deg2rad(rot)
    u = np.stack([np.cos(r), np.sin(r)], 1)
    ca = 1. / np.tan(np.deg2rad(al))
    for i in range(n):
        want = []
        for c in cen:
            xs = sorted(e[0] - (e[1] - yg) * ca[i] for e in
                        (c - u[i] * w / 2., c + u[i] * w / 2.))
            want.append(tuple(np.clip(xs, -X, X)))
        if any(p[1] > q[0] - 1e-6 for p, q in zip(want, want[1:])):
            continue                # (must not overlap without flags)
        mon.hit('ground')
        mon.sig('ground', m, int(rot[i] // 20.), int(al[i] // 30.), yg == 0.)
        got = sorted(tuple(sorted(c[i, :, 0])) for s, c in surf if s)
        lit = [tuple(sorted(c[i, :, 0])) for s, c in surf if not s]
        mon.leq(ref.symdiff(ref.merge(got, 1e-9), ref.merge(want)), 0., 1e-7,
                'ground-shadows', 'shadows of the rows', step=i)
        mon.close(ref.measure(got) + ref.measure(lit), 2 * X, 1e-7,
                  'ground-once', 'ground covered once', step=i)
        mon.close(ref.measure(ref.merge(got + lit, 1e-9)), 2 * X, 1e-7,
                  'ground-all', 'ground covered', step=i)
        mon.close([c[i, :, 1] for _, c in surf], yg, TOL, 'ground-height',
                  'height of the ground', step=i)
        if abs(u[i, 1]) < 1e-3:
            continue
        for k, c in enumerate(cen):
            x = c[0] - (c[1] - yg) * u[i, 0] / u[i, 1]
            mon.close(cuts[k][i], [x, yg], 1e-9, 'ground-cut-point',
                      'where the plane of row %d meets the ground' % k,
                      scale=1. + abs(x) + w / abs(u[i, 1]) ** 2, step=i)
