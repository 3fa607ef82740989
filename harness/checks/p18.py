"""P18: editing the geometry of one moment (shadows, cuts, merges) behaves as
editing intervals on a line."""
import numpy as np
from .. import sut

ID = 'P18'
RULE = ('random sequences of edits (cast shadow, cut at a point, add, remove, '
        'merge, replace, delete) on segments, sides, rows, grounds and shade '
        'collections drawn along lines of any slope and position, plus line '
        'differences in every relative position and projections; non-trivial '
        'per distinct pair (operation, relation to what is there)')
COUNT = {'quick': 3200, 'thorough': 90000}
REQUIRED = {'cast': 800, 'cast-multi': 40, 'cut': 500, 'cut-boundary': 20,
            'merge': 40, 'negative-slope': 100, 'vertical': 30,
            'horizontal': 30, 'reversed': 200, 'difference': 2000,
            'covering': 100, 'projection': 500, 'off-line': 100,
            'collection-op': 300, 'setter': 60, 'segmented': 200, 'row': 100,
            'ground': 60, 'weighted': 300, 'defaults': 30, 'rejected': 60,
            'plot': 400, 'row-update': 100,
            'ground-lists': 200, 'skew': 300}
TOL = 1e-6
MIN = 1e-4      # smallest distance between distinct positions


def corners(tier):
    out = []
    for k, ang in enumerate((0., 180., 90., -90., 45., -45., 135., -135.,
                             1e-3, 179.9, 30., -20.)):
        rng = np.random.default_rng(100 + k)
        c = gen(rng, k, tier)
        c['ang'] = ang
        out.append(c)
    return out


def gen(rng, k, tier):
    L = float(rng.choice([1., 2., rng.uniform(.1, 10.), 200.,
                          rng.uniform(1., 100.)]))
    ops = []
    grid = np.round(np.linspace(0, 1, 13), 6)

    def pos(out=False):
        r = rng.random()
        if r < .35:
            return float(rng.choice(grid))
        if out and r < .6:
            return float(np.round(rng.uniform(-.6, 1.6), 3))
        return float(np.round(rng.uniform(.001, .999), 3))
    for _ in range(int(rng.integers(3, 10 if tier == 'quick' else 16))):
        op = str(rng.choice(['cast', 'cast', 'cast', 'cut', 'cut', 'merge',
                             'off', 'del', 'set', 'param']))
        a, b = pos(True), pos(True)
        if abs(a - b) < .002:
            b = a + .25
        if rng.random() < .15:
            a, b = -.1, 1.2
        ops.append([op, a, b, int(rng.integers(0, 8))])
    colops = []
    for _ in range(int(rng.integers(2, 7))):
        colops.append([str(rng.choice(['add', 'remove', 'cut', 'merge'])),
                       pos(True), pos(True)])
    diffs = [[pos(True), pos(True), pos(True), pos(True)] for _ in range(6)]
    proj = [[float(x) for x in np.round(rng.uniform(-3, 3, 5), 3)]
            for _ in range(3)]
    return {'kind': str(rng.choice(['segment', 'side', 'row', 'ground',
                                    'side', 'tilt-row'])),
            'ang': float(rng.choice([rng.uniform(-180, 180), 0., 90., -45.,
                                     135., rng.uniform(-90, 0), 180.])),
            'org': [float(np.round(x, 3)) for x in rng.uniform(-50, 50, 2)],
            'L': round(L, 4), 'nseg': int(rng.integers(1, 6)),
            'shaded': bool(rng.random() < .15), 'flip': bool(rng.random() < .3),
            'ops': ops, 'colops': colops, 'diffs': diffs, 'proj': proj,
            'az': [float(rng.choice([0., 37., 90., 180., 300.])),
                   float(rng.choice([0., 10., 45., 90., 135., 180., 60.])),
                   int(rng.integers(0, 2))]}


def shrink(case):
    for key in ('ops', 'colops', 'diffs', 'proj'):
        for i in range(len(case[key])):
            if len(case[key]) > (1 if key == 'ops' else 0):
                c = dict(case)
                c[key] = case[key][:i] + case[key][i + 1:]
                yield c
    if case['nseg'] > 1:
        c = dict(case)
        c['nseg'] = 1
        yield c


# ------------------------------------------------- intervals on the line
def union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + TOL:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def minus(iv, cut):
    a, b = iv
    lo, hi = cut
    if hi <= a + TOL or lo >= b - TOL:
        return [iv]
    return [(x, y) for x, y in ((a, lo), (hi, b)) if y - x > TOL]


def overlap(ivs, cut):
    return union([(max(a, cut[0]), min(b, cut[1])) for a, b in ivs
                  if min(b, cut[1]) - max(a, cut[0]) > TOL])


class Line(object):
    def __init__(self, org, ang, L):
        self.o = np.array(org, float)
        self.d = np.array([np.cos(np.radians(ang)), np.sin(np.radians(ang))])
        if ang in (0., 180.):
            self.d = np.array([1. if ang == 0. else -1., 0.])
        if ang in (90., -90.):
            self.d = np.array([0., 1. if ang > 0 else -1.])
        self.n = np.array([-self.d[1], self.d[0]])
        self.L = L

    def xy(self, s, off=0.):
        p = self.o + self.d * self.L * s + self.n * off
        return (float(p[0]), float(p[1]))

    def t(self, geom):
        """Interval of a surface on the line, and distance off the line."""
        c = np.array(geom.coords)
        ts = (c - self.o).dot(self.d)
        return (float(ts.min()), float(ts.max())), float(
            np.abs((c - self.o).dot(self.n)).max())


def snap(ivs_list, x):
    """Position x (m) moved onto an existing boundary it nearly touches."""
    for ivs in ivs_list:
        for a, b in ivs:
            for e in (a, b):
                if abs(e - x) < MIN:
                    return e
    return x


# -------------------------------------------------------- the judge
def judge(case, mon):
    with sut.code('import'):
        from shapely.geometry import LineString, Point
        from pvfactors.geometry.base import (
            PVSegment, BaseSide, PVSurface, ShadeCollection)
        from pvfactors.geometry.pvrow import PVRow, PVRowSide
        from pvfactors.geometry.pvground import PVGround
        from pvfactors.geometry import utils
    kind = case['kind']
    line = Line(case['org'], case['ang'], case['L'])
    nseg = case['nseg']
    if kind == 'ground':
        nseg = 1
        line = Line([case['org'][0], case['org'][1]], 0., case['L'])
    if kind == 'segment':
        nseg = 1
    if kind == 'tilt-row':
        axis, tilt, right = case['az']
        rot = (tilt if right else -tilt)
        if tilt == 0:
            rot = 0.
        if tilt == 180:
            rot = 180.
        rad = case['L'] / 2.
        c = np.array(case['org'])
        u = np.array([np.cos(np.radians(rot)), np.sin(np.radians(rot))])
        line = Line(list(c - rad * u), rot, case['L'])
    mon.hit('negative-slope', line.d[0] * line.d[1] < -1e-9)
    mon.hit('vertical', abs(line.d[0]) < 1e-9)
    mon.hit('horizontal', abs(line.d[1]) < 1e-9)
    L, shaded0 = case['L'], case['shaded']
    nrm = None
    if case['flip'] and kind not in ('ground', 'tilt-row'):
        nrm = [float(-line.n[0]), float(-line.n[1])]
    sgn = -1. if nrm is not None else 1.
    coords = [line.xy(0.), line.xy(1.)]
    row = None
    with sut.code('building the geometry'):
        names = ['a', 'b']
        if kind == 'segment':
            top = PVSegment.from_linestring_coords(
                coords, shaded=shaded0, normal_vector=nrm, index=7,
                param_names=names)
            segs = [top]
        elif kind == 'ground':
            top = PVGround.as_flat(
                x_min_max=(line.xy(0.)[0], line.xy(1.)[0]), shaded=shaded0,
                y_ground=case['org'][1], param_names=names)
            segs = list(top.list_segments)
            mon.hit('ground')
        elif kind == 'side':
            cls = PVRowSide if case['flip'] else BaseSide
            top = cls.from_linestring_coords(
                coords, shaded=shaded0, normal_vector=nrm, index=7,
                n_segments=nseg, param_names=names)
            segs = list(top.list_segments)
        else:
            cut = {'front': nseg, 'back': 2}
            if kind == 'row':
                row = PVRow.from_linestring_coords(
                    coords, shaded=shaded0, normal_vector=nrm, index=3,
                    cut=cut, param_names=names)
            else:
                row = PVRow.from_center_tilt_width(
                    tuple(case['org']), tilt, case['L'],
                    (axis + (270. if right else 90.)) % 360., axis,
                    shaded=shaded0, index=3, cut=cut, param_names=names)
            top = row.front
            segs = list(top.list_segments)
            mon.hit('row')
    mon.hit('segmented', nseg > 1)
    if kind in ('segment', 'side'):
        mon.ok([x.index for x in segs] == [7] * len(segs), 'segment-index',
               'index given to a segment')
    elif row is not None:
        mon.ok(row.index == 3, 'row-index', 'index given to a row')
    mon.ok(len(segs) == nseg, 'segment-count', got=len(segs), want=nseg)
    if len(segs) != nseg:
        return
    bounds = [(L * i / nseg, L * (i + 1) / nseg) for i in range(nseg)]
    model = [{True: [bd] if shaded0 else [], False: [] if shaded0 else [bd]}
             for bd in bounds]
    if row is not None:
        judge_row(row, line, case, sgn, mon, sut)
    check_all(top, segs, model, line, sgn, mon, 'start')
    alive = True
    for op, a, b, j in case['ops']:
        if not alive:
            break
        every = [iv for m in model for iv in m.values()]
        seg, m = segs[j % nseg], model[j % nseg]
        if op in ('cast', 'off'):
            a, b = snap(every, a * L), snap(every, b * L)
            if abs(b - a) < MIN:
                continue
            lo, hi = min(a, b), max(a, b)
            off = L * .05 if op == 'off' else 0.
            ls = LineString([line.xy(a / L, off), line.xy(b / L, off)])
            mon.hit('reversed', b < a)
            mon.hit('off-line', op == 'off')
            with sut.code('cast_shadow %s' % ('beside' if off else '')):
                top.cast_shadow(ls)
            if op == 'cast':
                mon.hit('cast')
                for mm in model:
                    new = overlap(mm[False], (lo, hi))
                    mon.hit('cast-multi', len(new) > 1)
                    mon.sig('cast', len(new), len(mm[False]), len(mm[True]),
                            b < a, bool(new) and (lo, hi) != new[0])
                    mm[False] = [p for iv in mm[False]
                                 for p in minus(iv, (lo, hi))]
                    mm[True] = mm[True] + new
        elif op == 'cut':
            x = snap(every, a * L)
            with sut.code('cut_at_point'):
                top.cut_at_point(Point(line.xy(x / L)))
            mon.hit('cut')
            for mm in model:
                for sh in (False, True):
                    new = []
                    for s, e in mm[sh]:
                        if s + TOL < x < e - TOL:
                            new += [(s, x), (x, e)]
                            mon.sig('cut', sh, len(mm[sh]))
                        else:
                            new.append((s, e))
                            mon.hit('cut-boundary', abs(x - s) < TOL
                                    or abs(x - e) < TOL)
                    mm[sh] = new
        elif op == 'merge' and kind != 'segment':
            with sut.code('merge_shaded_areas'):
                top.merge_shaded_areas()
            for mm in model:
                sh = mm[True]
                if len(sh) > 1:
                    # (a merge may swallow illuminated surfaces)
                    alive &= len(union(sh)) == 1
                    mm[True] = [(min(s[0] for s in sh),
                                 max(s[1] for s in sh))]
                    mon.hit('merge')
                    mon.sig('merge', len(sh), len(union(sh)))
        elif op == 'del':
            if j % 4 or kind == 'ground':
                continue
            sh = bool((j // 4) % 2)
            with sut.code('deleting a collection'):
                if sh:
                    del seg.shaded_collection
                else:
                    del seg.illum_collection
            m[sh] = []
            mon.hit('setter')
            mon.sig('del', sh)
        elif op == 'set':
            sh = bool(j % 2)
            lo, hi = bounds[j % nseg]
            x, y = lo + (hi - lo) * .25, lo + (hi - lo) * .5
            free = not any(overlap(m[not sh], (x, y)))
            if not free:
                continue
            with sut.code('replacing a collection'):
                col = ShadeCollection.from_linestring_coords(
                    [line.xy(x / L), line.xy(y / L)], sh,
                    normal_vector=list(sgn * line.n), param_names=names)
                if sh:
                    seg.shaded_collection = col
                else:
                    seg.illum_collection = col
            m[sh] = [(x, y)]
            mon.hit('setter')
            mon.sig('set', sh)
            wrong = ShadeCollection.from_linestring_coords(
                [line.xy(0.), line.xy(1.)], not sh)
            try:
                if sh:
                    seg.shaded_collection = wrong
                else:
                    seg.illum_collection = wrong
                mon.fail('wrong-shading-accepted', 'a collection with the '
                         'wrong shading was accepted')
            except Exception:
                mon.ok(True, 'wrong-shading-refused')
            mon.hit('rejected')
        elif op == 'param':
            vals = {}
            with sut.code('parameters'):
                top.update_params({'b': 4.})
                surfs = list(top.all_surfaces)
                for q, sf in enumerate(surfs):
                    sf.update_params({'a': 1. + q * .7})
                    vals[q] = 1. + q * .7
                tot = sum(sf.length for sf in surfs)
                if tot > MIN:
                    ww, w = top.get_param_ww('a'), top.get_param_weighted('a')
                    wb = top.get_param_weighted('b')
                    want = sum(vals[q] * sf.length
                               for q, sf in enumerate(surfs))
            if tot > MIN:
                mon.close(ww, want, 1e-9, 'weighted-sum', scale=abs(want) + 1)
                # (a side keeps the length it was created with)
                if not any(o[0] in ('set', 'del') for o in case['ops']):
                    mon.close(w, want / tot, 1e-6, 'weighted-mean',
                              scale=abs(want / tot) + 1)
                    mon.close(wb, 4., 1e-6, 'weighted-const')
                mon.hit('weighted')
            try:
                surfs and top.get_param_ww('nope')
                mon.ok(not surfs, 'missing-parameter-accepted')
            except KeyError:
                mon.ok(True, 'missing-parameter')
        check_all(top, segs, model, line, sgn, mon, op)
    if row is not None:
        # the back side was never touched
        back = row.back
        ivs = sorted(line.t(s)[0] for s in back.all_surfaces)
        mon.close(ivs, [(0, L / 2), (L / 2, L)], TOL, 'other-side',
                  'editing a side changed the other one', scale=L + 1)
        mon.close(back.shaded_length, L if shaded0 else 0., TOL,
                  'other-side-shading', scale=L + 1)
        mon.ok(len(row.all_surfaces) == len(row.surface_indices)
               == top.n_surfaces + back.n_surfaces, 'row-surfaces')
        judge_row_params(row, top, mon)
    if len(case['ops']) % 2 == 0:
        for what in ([top, segs[-1]] + ([row] if row is not None else [])):
            judge_plot(what, line, mon)
    judge_defaults(case, line, mon, sut)
    judge_vectors(case, line, mon, utils)
    judge_ground_lists(case, line, mon, sut)
    judge_collection(case, line, mon, sut)
    judge_lines(case, line, mon, sut, utils, LineString, Point, PVSurface)


def read(surfs, line, mon, sgn, what, shaded):
    out = []
    for s in surfs:
        iv, off = line.t(s)
        mon.leq(off, 0., TOL, 'on-line', 'surface is off its line after '
                + what, scale=1 + line.L)
        out.append(iv)
        nv = np.asarray(s.n_vector, float)
        nv = nv / np.hypot(*nv)
        mon.close(nv, sgn * line.n, 1e-5, 'normal', 'direction faced by a '
                  'surface after ' + what)
        mon.ok(bool(s.shaded) == shaded, 'flag', 'shading flag after ' + what)
    return sorted(out)


def check_all(top, segs, model, line, sgn, mon, what):
    sc = line.L + 1
    with sut.code('reading the geometry'):
        al = list(top.all_surfaces)
        n, idx = top.n_surfaces, list(top.surface_indices)
        sl = top.shaded_length
    mon.ok(n == len(al) == len(idx), 'n-surfaces', 'number of surfaces '
           'after ' + what, got=[n, len(al), len(idx)])
    tot = 0.
    for seg, m in zip(segs, model):
        with sut.code('reading a segment'):
            il = list(seg.illum_collection.list_surfaces)
            sh = list(seg.shaded_collection.list_surfaces)
            every = list(seg.all_surfaces)
            length = seg.length
            parts = (seg.illum_collection.length,
                     seg.shaded_collection.length, seg.shaded_length)
            nv = seg.n_vector
        mon.ok(len(every) == len(il) + len(sh) == seg.n_surfaces,
               'segment-surfaces', 'after ' + what)
        mon.ok({id(s) for s in every} == {id(s) for s in il + sh},
               'segment-surfaces', 'surfaces listed are not the ones of the '
               'collections after ' + what)
        gi = read(il, line, mon, sgn, what, False)
        gs = read(sh, line, mon, sgn, what, True)
        wi, ws = sorted(m[False]), m[True]
        if mon.ok(len(gi) == len(wi), 'illuminated', 'illuminated surfaces '
                  'after ' + what, got=gi, want=wi):
            mon.close(gi, wi, TOL, 'illuminated', 'illuminated surfaces '
                      'after ' + what, scale=sc)
        # (shadows overrun by the geometric tolerance, which cuts separate)
        mon.ok(len([g for g in gs if g[1] - g[0] > TOL])
               == len(ws), 'shaded-count', 'number of shaded '
               'surfaces after ' + what, got=gs, want=ws)
        ugs, uws = union(gs), union(ws)
        if mon.ok(len(ugs) == len(uws), 'shaded', 'shaded surfaces after '
                  + what, got=gs, want=ws):
            mon.close(ugs, uws, TOL * 3, 'shaded', 'shaded surfaces after '
                      + what, scale=sc)
        for iv in ws:
            # pieces created by the user stay
            ends = [e for g in gs for e in g]
            mon.leq(min([abs(e - iv[0]) for e in ends] + [1e9]), 0., 3 * TOL,
                    'shaded-ends', 'a cut of the shaded surfaces '
                    'disappeared after ' + what, scale=sc)
        tw = sum(b - a for a, b in uws)
        ti = sum(b - a for a, b in wi)
        mon.close(parts, [ti, tw, tw], 3 * TOL, 'lengths',
                  'lengths after ' + what, scale=sc)
        mon.close(length, ti + tw, 3 * TOL, 'segment-length',
                  'after ' + what, scale=sc)
        if wi or ws:
            nv = np.asarray(nv, float)
            mon.close(nv / np.hypot(*nv), sgn * line.n, 1e-5,
                      'segment-normal', 'after ' + what)
        tot += tw
    mon.close(sl, tot, 3 * TOL, 'shaded-length', 'after ' + what, scale=sc)
    mon.ok({id(s) for s in al} == {id(s) for g in segs
                                   for s in g.all_surfaces}, 'surfaces',
           'after ' + what)


def judge_row(row, line, case, sgn, mon, sut):
    L = line.L
    with sut.code('reading a row'):
        pts = sorted((p.x, p.y) for p in row.boundary)
        hi, lo = row.highest_point, row.lowest_point
        nf, nb = row.front.n_vector, row.back.n_vector
        ln = row.length
        nback = len(row.back.list_segments)
    want = sorted([line.xy(0.), line.xy(1.)])
    if abs(line.d[0]) < 1e-9:
        pts, want = sorted(pts, key=lambda p: p[1]), sorted(
            want, key=lambda p: p[1])
    mon.close(pts, want, TOL, 'row-ends', scale=L + 50)
    ys = [p[1] for p in want]
    mon.close([hi.y, lo.y], [max(ys), min(ys)], TOL, 'row-heights',
              scale=L + 50)
    if abs(ys[0] - ys[1]) > 1e-3:
        k = int(np.argmax(ys))
        mon.close([hi.x, lo.x], [want[k][0], want[1 - k][0]], TOL,
                  'row-high-low', scale=L + 50)
    nf, nb = np.asarray(nf, float), np.asarray(nb, float)
    mon.close(nf / np.hypot(*nf), sgn * line.n, 1e-6, 'front-normal')
    mon.close(nb / np.hypot(*nb), -sgn * line.n, 1e-6, 'back-normal')
    mon.close(ln, 2 * L, TOL, 'row-length', scale=L + 1)
    mon.ok(nback == 2, 'back-segments')


def judge_row_params(row, top, mon):
    with sut.code('parameters of a row'):
        row.update_params({'z': 5.})
        z = [s.get_param('z') for s in row.all_surfaces]
        row.back.update_params({'z': 6.})
        zf = [s.get_param('z') for s in row.front.all_surfaces]
        zb = [s.get_param('z') for s in row.back.all_surfaces]
    mon.ok(set(z) <= {5.}, 'row-update', 'values given to a row')
    mon.ok(set(zf) <= {5.} and set(zb) <= {6.}, 'side-update',
           'values given to the back of a row')
    mon.hit('row-update')


def judge_plot(top, line, mon):
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    ax = Figure().add_subplot(111)
    c = {True: '#102030', False: '#a0b0c0'}
    with sut.code('plotting'):
        top.plot(ax, color_shaded=c[True], color_illum=c[False])
    drawn = {}
    for ln in ax.lines:
        p = np.asarray(ln.get_xydata(), float)
        if ln.get_linestyle() in ('None', '', ' ', 'none') or len(p) < 2:
            continue
        drawn.setdefault(to_hex(ln.get_color()), []).append(
            tuple(sorted((p - line.o).dot(line.d))))
    mon.ok(set(drawn) <= set(c.values()), 'plot-colors', got=list(drawn))
    for sh in (True, False):
        want = sorted(line.t(s)[0] for s in top.all_surfaces
                      if bool(s.shaded) == sh)
        got = sorted(drawn.get(c[sh], []))
        if mon.ok(len(got) == len(want), 'plot', 'surfaces drawn as %s'
                  % ('shaded' if sh else 'illuminated'), got=got, want=want):
            mon.close(got, want, TOL, 'plot', scale=line.L + 1)
    mon.hit('plot')


def judge_ground_lists(case, line, mon, sut):
    """A ground made of given lit and shaded surfaces, then edited."""
    from shapely.geometry import LineString
    from pvfactors.geometry.pvground import PVGround
    from pvfactors.geometry.base import PVSurface
    rng = np.random.default_rng(int(abs(case['L']) * 1e6) % (2 ** 31))
    y = float(case['org'][1]) if rng.random() < .5 else 0.
    lim = None if rng.random() < .4 else (
        float(rng.uniform(-50, -5)), float(rng.uniform(5, 50)))
    lo, hi = lim or (-100., 100.)
    k = int(rng.integers(0, 7))
    xs = np.sort(rng.uniform(lo, hi, k))
    xs = np.concatenate([[lo], xs, [hi]])
    xs = xs[np.concatenate([[True], np.diff(xs) > 1e-2])]
    xs[-1] = hi
    flags = rng.random(len(xs) - 1) < .5
    lists = {True: [], False: []}
    with sut.code('PVGround.from_lists_surfaces'):
        for j, (a, b, f) in enumerate(zip(xs, xs[1:], flags)):
            lists[bool(f)].append(PVSurface(
                [(a, y), (b, y)], shaded=bool(f), index=j,
                param_names=['a'], params={'a': float(j)}))
        kw = {} if lim is None else {'x_min_max': lim}
        top = PVGround.from_lists_surfaces(
            list(lists[True]), list(lists[False]), y_ground=y,
            param_names=['a'], **kw)
        surfs = top.all_surfaces
        bd = sorted(p.x for p in top.boundary)
        ys = [p.y for p in top.boundary]
        ln, sl = top.length, top.shaded_length
    mon.close(ys, y, 1e-9, 'lists-height', 'height of the line of the '
              'ground', scale=100.)
    mon.close([bd[0], bd[-1]], [lo, hi], 1e-9, 'lists-bounds',
              'bounds of the ground', scale=100.)
    mon.close(ln, hi - lo, 1e-9, 'lists-length', '', scale=100.)
    mon.close(sl, float(np.diff(xs)[flags].sum()), 1e-9,
              'lists-shaded-length', '', scale=100.)
    got = {s.index: s for s in surfs}
    mon.ok(sorted(got) == list(range(len(flags))), 'lists-surfaces',
           'surfaces of the ground', got=sorted(got))
    for j, f in enumerate(flags):
        if j not in got:
            continue
        s = got[j]
        c = sorted(p[0] for p in s.coords)
        mon.close(c, [xs[j], xs[j + 1]], 1e-9, 'lists-place', '', scale=100.)
        mon.ok(bool(s.shaded) == bool(f) and s.get_param('a') == j,
               'lists-surface', 'shading or values of a surface')
    a, b = np.sort(rng.uniform(lo, hi, 2))
    if b - a < 1e-2 or np.min(np.abs(xs[:, None] - [a, b])) < 1e-3:
        return
    with sut.code('cast_shadow on a ground made of lists'):
        top.cast_shadow(LineString([(a, y), (b, y)]))
        sl = top.shaded_length
        ln = top.length
        sh = [tuple(sorted((s.coords[0][0], s.coords[-1][0])))
              for s in top.all_surfaces if s.shaded]
    want = union([(p, q) for p, q, f in zip(xs, xs[1:], flags) if f]
                 + [(a, b)])
    mon.close(sl, sum(q - p for p, q in want), 1e-7, 'lists-cast',
              'shaded length after a shadow', scale=100.)
    have = union(sh)
    mon.close(sum(q - p for p, q in have), sum(q - p for p, q in want), 1e-7,
              'lists-cast', 'shaded ground after a shadow', scale=100.)
    mon.close(ln, hi - lo, 1e-7, 'lists-cast', 'length after a shadow',
              scale=100.)
    mon.hit('ground-lists')


def judge_vectors(case, line, mon, utils):
    """What counts as being along one direction."""
    from pvfactors.geometry.base import PVSurface, ShadeCollection
    L = max(line.L, .5)

    def mk(ang, n=None):
        d = np.array([np.cos(np.radians(ang)), np.sin(np.radians(ang))])
        d = d * (line.d[0], line.d[0]) + d[::-1] * (-line.d[1], line.d[1])
        return PVSurface([tuple(line.o), tuple(line.o + L * d)])
    with sut.code('collinearity'):
        # (a third of a degree is another direction, a rounding error is not)
        skew = (40., .3, -.3, 179.7, 90.)[int(case['L'] * 1e4) % 5]
        a, a2, b = mk(0.), mk(180. + 1e-11), mk(skew)
        mon.hit('skew', abs(skew) in (.3, 179.7))
        e = ShadeCollection(shaded=False)
        got = [bool(utils.is_collinear(x)) for x in (
            [], [a], [e, a], [a, e, a2], [e, e, a, a2], [a, b], [e, a, b],
            [a, e, b], [a, a2, b], [b, a, a2])]
        got += [bool(utils.are_2d_vecs_collinear(p, q)) for p, q in (
            (line.d, line.d), (line.d, -3. * line.d), (line.d, line.n),
            (line.d, line.d + .3 * line.n), (line.d, line.d + 5e-3 * line.n),
            (line.d, 1e-9 * line.n - line.d))]
    want = [True] * 5 + [False] * 5 + [True, True, False, False, False, True]
    mon.ok(got == want, 'collinear', 'elements along one direction', got=got,
           want=want)
    for lst, ok in (([a, e, a2], True), ([a, e, b], False), ([b, b], True)):
        try:
            with sut.code('check_collinear'):
                utils.check_collinear(lst)
            good = True
        except sut.CodeError:
            good = False
        mon.ok(good == ok, 'check-collinear', got=good, want=ok)


def judge_defaults(case, line, mon, sut):
    """Two objects created with default arguments share nothing."""
    if int(case['L'] * 1e4) % 4:
        return
    from shapely.geometry import LineString
    with sut.code('default arguments'):
        from pvfactors.geometry.base import PVSegment, ShadeCollection
        mk = lambda s: ShadeCollection.from_linestring_coords(   # noqa
            [line.xy(0.), line.xy(1.)], s)
        one = PVSegment(illum_collection=mk(False))
        one.cast_shadow(LineString([line.xy(.2), line.xy(.6)]))
        two = PVSegment(illum_collection=mk(False))
        three = PVSegment()
        four = PVSegment(shaded_collection=mk(True))
        got = [one.shaded_length, two.shaded_length, three.length,
               four.shaded_length, four.illum_collection.length]
    mon.close(got, [.4 * line.L, 0., 0., line.L, 0.], TOL, 'defaults',
              'objects created with default arguments share surfaces',
              scale=line.L + 1)
    mon.hit('defaults')
    with sut.code('default ground and empty objects'):
        from pvfactors.geometry.base import BaseSide
        from pvfactors.geometry.pvground import PVGround
        g = PVGround.as_flat(shaded=case['shaded'])
        g2 = PVGround.as_flat(x_min_max=(-3., 5.))
        g.cast_shadow(LineString([(-2., 0.), (1., 0.)]))
        got = [list(g.boundary[0].coords[0]) + list(g.boundary[1].coords[0]),
               [s.length for s in g2.all_surfaces]]
        lens = [g.length, g.shaded_length, g2.shaded_length]
        empty = [BaseSide(), ShadeCollection(), PVSegment()]
        nv = [x.n_vector for x in empty[:2]]
        cnt = [x.n_surfaces for x in empty] + [len(x.all_surfaces)
                                               for x in (empty[0], empty[2])]
    mon.close(got[0], [-100., 0., 100., 0.], 1e-9, 'default-ground',
              'extent of the default ground')
    mon.close(got[1], [8.], 1e-9, 'default-ground', 'ground of an extent')
    mon.close(lens, [200., 200. if case['shaded'] else 3., 0.], 1e-6,
              'default-ground', 'lengths of the default ground', scale=200.)
    mon.ok(nv == [None, None] and not any(cnt), 'empty',
           'empty side, collection and segment', got=[nv, cnt])
    # surfaces in different directions are refused
    mon.hit('rejected')
    x, y = line.xy(.3), line.xy(.6)
    a = mk(False)
    for dirs in (line.n, line.d + .4 * line.n):
        z = (y[0] + float(dirs[0]), y[1] + float(dirs[1]))
        with sut.code('surfaces in two directions'):
            b = ShadeCollection.from_linestring_coords([y, z], True)
            try:
                PVSegment(illum_collection=a, shaded_collection=b)
                bad = True
            except Exception:
                bad = False
            try:
                BaseSide([PVSegment(illum_collection=a), PVSegment(
                    illum_collection=ShadeCollection.from_linestring_coords(
                        [y, z], False))])
                bad3 = True
            except Exception:
                bad3 = False
        mon.ok(not bad and not bad3, 'not-collinear-accepted',
               'surfaces in different directions in one segment or side',
               got=[bad, bad3])


def judge_collection(case, line, mon, sut):
    from shapely.geometry import LineString, Point
    from pvfactors.geometry.base import ShadeCollection, PVSurface
    L = line.L
    with sut.code('collection'):
        col = ShadeCollection.from_linestring_coords(
            [line.xy(0.), line.xy(1.)], case['shaded'], param_names=['a'])
    model = [(0., L)]
    for op, a, b in case['colops']:
        a, b = snap([model], a * L), snap([model], b * L)
        if abs(a - b) < MIN:
            continue
        lo, hi = min(a, b), max(a, b)
        ls = LineString([line.xy(a / L), line.xy(b / L)])
        if op == 'add':
            if overlap(model, (lo, hi)) or not model:
                continue
            with sut.code('add'):
                if b > a:
                    col.add_linestring(ls)
                else:
                    col.add_pvsurface(PVSurface(
                        ls.coords, normal_vector=line.n,
                        shaded=case['shaded']))
            model = model + [(lo, hi)]
        elif op == 'remove':
            with sut.code('remove_linestring'):
                col.remove_linestring(ls)
            model = [p for iv in model for p in minus(iv, (lo, hi))]
            mon.hit('covering', lo < -TOL and hi > L + TOL)
        elif op == 'cut':
            with sut.code('cut'):
                col.cut_at_point(Point(line.xy(a / L)))
            model = [p for s, e in model for p in (
                [(s, a), (a, e)] if s + TOL < a < e - TOL else [(s, e)])]
        elif len(model) > 1:
            with sut.code('merge'):
                col.merge_surfaces()
            model = [(min(s for s, _ in model), max(e for _, e in model))]
        mon.hit('collection-op')
        mon.sig('col', op, min(len(model), 4), b < a)
        got = read(col.list_surfaces, line, mon, 1., 'collection ' + op,
                   case['shaded'])
        if mon.ok(len(got) == len(model), 'collection', 'surfaces of a '
                  'collection after ' + op, got=got, want=sorted(model)):
            mon.close(got, sorted(model), TOL, 'collection', 'surfaces of a '
                      'collection after ' + op, scale=L + 1)
        mon.close(col.length, sum(e - s for s, e in model), TOL,
                  'collection-length', 'after ' + op, scale=L + 1)
        mon.ok(col.n_surfaces == len(col.list_surfaces)
               == len(col.surface_indices), 'collection-count')
    # what is not uniform, or not along one line, is refused
    with sut.code('surfaces'):
        s1 = PVSurface([line.xy(0.), line.xy(.4)], shaded=True)
        s2 = PVSurface([line.xy(.5), line.xy(.9)], shaded=False)
    try:
        ShadeCollection([s1, s2])
        mon.fail('mixed-shading', 'a collection of shaded and illuminated '
                 'surfaces was accepted')
    except Exception:
        mon.ok(True, 'mixed-shading')
    if L > 1:
        from pvfactors.geometry.base import BaseSide, PVSegment
        with sut.code('segments'):
            g1 = PVSegment.from_linestring_coords([line.xy(0.), line.xy(.4)])
            g2 = PVSegment.from_linestring_coords([line.xy(.4),
                                                   line.xy(.9, .2 * L)])
        try:
            BaseSide([g1, g2])
            mon.fail('bent-side', 'a side of segments that are not along one '
                     'line was accepted')
        except Exception:
            mon.ok(True, 'bent-side')
        with sut.code('collections'):
            sh = ShadeCollection.from_linestring_coords(
                [line.xy(0.), line.xy(.4)], True)
            il = ShadeCollection.from_linestring_coords(
                [line.xy(.4), line.xy(.9, .2 * L)], False)
        try:
            PVSegment(illum_collection=il, shaded_collection=sh)
            mon.fail('bent-segment', 'a segment of collections that are not '
                     'along one line was accepted')
        except Exception:
            mon.ok(True, 'bent-segment')
        mon.hit('rejected')


def judge_lines(case, line, mon, sut, utils, LineString, Point, PVSurface):
    L = line.L
    mk = lambda a, b, off=0.: LineString([line.xy(a, off),        # noqa: E731
                                          line.xy(b, off)])
    for a, b, c, d in case['diffs']:
        if abs(a - b) < .002:
            b = a + .3
        if abs(c - d) < .002:
            d = c + .3
        q = [snap([[(a * L, b * L)]], x * L) / L for x in (c, d)]
        for c2, d2, off in ((q[0], q[1], 0.), (a - .2, b + .2, 0.)
                            if b > a else (a + .2, b - .2, 0.),
                            (q[0], q[1], .1 * L)):
            if abs(c2 - d2) * L < MIN:
                continue
            want = minus((min(a, b) * L, max(a, b) * L),
                         (min(c2, d2) * L, max(c2, d2) * L))
            if off:
                want = [(min(a, b) * L, max(a, b) * L)]
            for surf in (False, True):
                with sut.code('difference'):
                    u = PVSurface([line.xy(a), line.xy(b)]) if surf \
                        else mk(a, b)
                    v = mk(c2, d2, off)
                    r = (u.difference(v) if surf
                         else utils.difference(u, v))
                    parts = list(getattr(r, 'geoms', [r]))
                    got = sorted(line.t(p)[0] for p in parts
                                 if not p.is_empty)
                got = [g for g in got if g[1] - g[0] > TOL]
                mon.hit('difference')
                if mon.ok(len(got) == len(want), 'difference', 'line minus '
                          'another one', got=got, want=want,
                          lines=[a * L, b * L, c2 * L, d2 * L]):
                    mon.close(got, sorted(want), TOL, 'difference',
                              scale=L + 1)
                mon.sig('diff', len(want), a < b, c2 < d2, bool(off))
            mon.hit('covering', not want)
        # contains
        for x in (c, d):
            inside = min(a, b) - 1e-9 <= x <= max(a, b) + 1e-9
            clear = min(abs(x - a), abs(x - b)) * L > 1e-5
            with sut.code('contains'):
                g1 = utils.contains(mk(a, b), Point(line.xy(x)))
                g2 = utils.contains(mk(a, b), Point(line.xy(x, 1e-4)))
            if clear:
                mon.ok(bool(g1) == inside, 'contains', got=bool(g1),
                       want=inside)
            mon.ok(not g2, 'contains-off', 'a point off the line is said to '
                   'be on it')
    for px, py, vx, vy, w in case['proj']:
        p = line.o + np.array([px, py]) * L
        v = np.array([vx, vy])
        if abs(v.dot(line.n)) < 1e-2 or abs(v.dot(line.n)) * L < 1e-3:
            continue
        # p + k v on the line
        k = -(p - line.o).dot(line.n) / v.dot(line.n)
        hit = p + k * v
        pos = (hit - line.o).dot(line.d)
        seg = sorted((0., L))
        with sut.code('projection'):
            free = utils.projection(Point(*p), [float(x) for x in v],
                                    mk(0., 1.), must_contain=False)
            held = utils.projection(Point(*p), [float(x) for x in v],
                                    mk(0., 1.))
            par = utils.projection(Point(*p), [float(x) for x in line.d],
                                   mk(0., 1.))
        sc = np.abs(hit).max() + np.abs(p).max() + L
        amp = 1 / abs(v.dot(line.n)) * np.hypot(*v)
        mon.close([free.x, free.y], hit, 1e-9 * amp + 1e-10, 'projection',
                  scale=sc)
        mon.ok(par.is_empty, 'parallel-projection')
        if seg[0] + 1e-5 * sc < pos < seg[1] - 1e-5 * sc:
            if mon.ok(not held.is_empty, 'projection-inside'):
                mon.close([held.x, held.y], hit, 1e-9 * amp + 1e-10,
                          'projection-inside', scale=sc)
        elif pos < seg[0] - 1e-5 * sc or pos > seg[1] + 1e-5 * sc:
            mon.ok(held.is_empty, 'projection-outside')
        mon.hit('projection')
        # projecting an end gives that end
        with sut.code('projection of an end'):
            q = utils.projection(Point(*(np.array(line.xy(1.)) + v * .5)),
                                 [float(x) for x in v], mk(0., 1.))
        if amp < 1e2 and not q.is_empty:
            mon.close([q.x, q.y], line.xy(1.), 1e-7, 'projection-end',
                      scale=sc)
