"""P16: a snapshot of the array at a timestep (geometry objects and plots)
shows exactly what was simulated at that timestep."""
import numpy as np
from .. import cases, compare, core, ref, sut, view

ID = 'P16'
RULE = ('random and directed arrays, fitted only or simulated in full or '
        'fast mode; snapshots of rows, sides, segments, ground (merged or '
        'not, with or without cut points) and plots at several timesteps; '
        'non-trivial per distinct situation of a judged timestep, mode and '
        'kind of snapshot')
COUNT = {'quick': 330, 'thorough': 3500}
REQUIRED = {'snapshot': 300, 'flat': 10, 'over': 20, 'shade_front': 30,
            'shade_back': 10, 'left': 50, 'cut': 50, 'merged': 20,
            'plot': 30, 'plot-part': 60, 'plot-index': 10, 'plot-index-ground': 4, 'full': 30, 'fast': 20,
            'fitted': 10, 'params': 2000,
            'before-fitted': 8, 'before-other': 8, 'before-fast': 8,
            'before-full': 8, 'element-several': 50}
BEFORE = ['none', 'fitted', 'other', 'fast', 'none', 'full']
shrink = core.shrink_steps
TOL = 1e-9


def corners(tier):
    return [dict(c, mode=('full', 'fast', 'fitted')[i % 3], plot=i % 4,
                 pick=i, before=BEFORE[i % len(BEFORE)], row=i % c['scn']['arr']['n_pvrows'])
            for i, c in enumerate(cases.corner_cases()
                                  + [{'scn': x} for x in split_shadows()])]


def split_shadows():
    """Touching ground shadows, each cut by the planes of several rows."""
    from ..directed import _arr, _t
    for n, axis in ((4, 0.), (6, 90.)):
        yield {'arr': _arr(n, h=1.4, w=1.6, gcr=.45, axis=axis),
               't': _t(zen=[80., 83., 78., 85., 82.],
                       azi=[axis + 90., axis + 90., axis + 100., axis - 90.,
                            axis - 90.],
                       tilt=[35., 55., 40., 50., 65.],
                       saz=[axis + 90., axis + 90., axis - 90., axis - 90.,
                            axis + 90.]),
               'irr': {'model': 'hybrid', 'rho_front': .03,
                       'rho_back': .05}, 'vf': {}}


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89.7, long_every=0,
                          many=(5, 8))
    c['mode'] = ('full', 'fast', 'fitted', 'full')[k % 4]
    c['plot'] = int(rng.integers(0, 6))
    c['before'] = str(rng.choice(BEFORE))
    c['pick'] = int(rng.integers(0, 1000))
    c['row'] = int(rng.integers(0, c['scn']['arr']['n_pvrows']))
    return c


def key(p):
    return tuple(np.round(np.asarray(p, float), 7).ravel())


YG = [0.]       # height of the ground of the judged case


def xy(surf):
    return np.asarray(list(surf.coords), float) - [0., YG[0]]


def same_line(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return (np.abs(a - b).max() < tol) or (np.abs(a - b[::-1]).max() < tol)


def earlier(eng, scn, kind, pick, row):
    """Snapshots taken before the judged simulation."""
    def look(n):
        for i in sorted({0, n - 1, pick % n, (pick * 7 + 3) % n}):
            eng.pvarray.ts_ground.at(i)
            eng.pvarray.ts_ground.non_point_surfaces_at(i)
            for r in eng.pvarray.ts_pvrows:
                r.at(i)
                r.surfaces_at_idx(i)
                for s in (r.front, r.back):
                    s.at(i)
                    for g in s.list_segments:
                        g.at(i)
    inp = sut.Inputs(scn)
    with sut.code('snapshots before the simulation'):
        if kind == 'other':      # of an earlier series of the same length
            t = {k: list(reversed(x)) for k, x in scn['t'].items()}
            t['zen'] = [min(x + 1.3, 89.) for x in t['zen']]
            old = sut.Inputs(dict(scn, t=t))
            eng.fit(*old.fit_args(), ghi=old.ghi)
            eng.run_full_mode()
            look(inp.n)
            eng.fit(*inp.fit_args(), ghi=inp.ghi)
        elif kind == 'fitted':
            look(inp.n)
        elif kind == 'fast':
            eng.run_fast_mode(pvrow_index=row)
            look(inp.n)
        elif kind == 'full':
            eng.run_full_mode()
            look(inp.n)
            eng.fit(*inp.fit_args(), ghi=inp.ghi)


def judge(case, mon):
    scn, mode = case['scn'], case['mode']
    YG[0] = float(scn['arr'].get('y_ground') or 0.)
    mon.hit('raised', YG[0] != 0.)
    eng = sut.fit_engine(scn)
    if case.get('before', 'none') != 'none':
        earlier(eng, scn, case['before'], case['pick'], case['row'])
        mon.hit('before-' + case['before'])
    names = ['rho', 'inv_rho', 'direct', 'total_perez']
    if scn['irr']['model'] == 'hybrid':
        names += ['circumsolar', 'horizon']
    fast = []
    if mode == 'full':
        with sut.code('run_full_mode'):
            eng.run_full_mode()
        names += ['qinc', 'q0', 'qabs', 'isotropic', 'reflection']
    elif mode == 'fast':
        with sut.code('run_fast_mode'):
            eng.run_fast_mode(pvrow_index=case['row'])
        fast = ['qinc', 'isotropic', 'reflection', 'sky_term']
    mon.hit(mode)
    tag0 = mode + '<' + case.get('before', 'none')
    v = view.View(scn, eng.pvarray, eng)
    n = v.n
    val = {}
    for s in v.surfs:
        mine = names + (fast if s.kind == 'r' and s.row == case['row']
                        and s.side == 'back' else [])
        with sut.code('reading parameters'):
            val[s.pos] = {k: np.array(np.broadcast_to(np.asarray(
                s.ts.get_param(k), float), n)) for k in mine}
    idxs = sorted({0, n - 1, case['pick'] % n, (case['pick'] * 7 + 3) % n})
    for i in idxs:
        st = v.step(i)
        tag = st.classes(mon)
        mon.hit('snapshot')
        mon.sig(tag0, tag)
        rows(v, i, val, mon)
        ground(v, i, val, mon, names, mode)
        if case['plot'] == 0 and n <= 20:
            plots(v, i, mon, case['pick'])
        if case['plot'] <= 1:
            parts(v, i, mon, case['pick'])
    for i in range(min(n, 20)):
        if i not in idxs and len(v.step(i).geo.ground_shadows()) \
                < scn['arr']['n_pvrows']:
            ground(v, i, val, mon, names, mode)
    # reading snapshots changed nothing
    for s in v.surfs:
        for k, x in val[s.pos].items():
            now = np.array(np.broadcast_to(np.asarray(
                s.ts.get_param(k), float), n))
            mon.ok(np.array_equal(now, x, equal_nan=True), 'snapshot-pure',
                   'a snapshot changed %s of %s' % (k, s.label))


def match(mon, got, want, v, i, val, what):
    """Surfaces of a snapshot against timeseries surfaces at step i."""
    used = set()
    for g in got:
        c = xy(g)
        hit = [s for s in want if s.pos not in used
               and same_line(c, v.C[s.pos, i])]
        if not hit:
            ln = float(np.hypot(*(c[-1] - c[0])))
            mon.ok(ln < ref.TINY, 'snapshot-extra',
                   '%s has a surface that is not in the simulation' % what,
                   step=i, coords=c)
            continue
        idx = [s for s in hit if v.surfs[s.pos].ts.index == g.index]
        s = (idx or hit)[0]
        used.add(s.pos)
        mon.ok(g.index == s.ts.index, 'snapshot-index',
               '%s: surface index' % what, step=i, got=g.index,
               want=s.ts.index)
        mon.ok(bool(g.shaded) == s.shaded, 'snapshot-shaded',
               '%s: shading flag' % what, step=i, surface=s.label)
        values(mon, g, val[s.pos], i, what + ' ' + s.label)
    for s in want:
        mon.ok(s.pos in used or v.L[s.pos, i] < ref.TINY, 'snapshot-missing',
               '%s lacks a surface of the simulation' % what, step=i,
               surface=s.label)


def values(mon, g, val, i, what):
    for k, x in val.items():
        with sut.code('get_param of a snapshot'):
            y = float(g.get_param(k))
        mon.ev('snapshot-value')
        mon.hit('params')
        if not (y == x[i] or (np.isnan(y) and np.isnan(x[i]))):
            mon.fail('snapshot-value', '%s: %s is not the simulated value'
                     % (what, k), step=i, got=y, want=x[i])


def rows(v, i, val, mon):
    arr = v.arr
    g = v.step(i).geo
    for r, row in enumerate(arr.ts_pvrows):
        mine = [s for s in v.surfs if s.kind == 'r' and s.row == r]
        with sut.code('pvrow.at'):
            snap = row.at(i)
            flat = row.surfaces_at_idx(i)
        for side_name in ('front', 'back'):
            ss = [s for s in mine if s.side == side_name]
            ts_side = getattr(row, side_name)
            with sut.code('snapshot of a side'):
                side = getattr(snap, side_name)
                alone = ts_side.at(i)
                lst = ts_side.surfaces_at_idx(i)
                ns = len(side.list_segments)
            match(mon, side.all_surfaces, ss, v, i, val, 'row.at()')
            match(mon, alone.all_surfaces, ss, v, i, val, 'side.at()')
            match(mon, lst, ss, v, i, val, 'side.surfaces_at_idx()')
            mon.ok(ns == len(ts_side.list_segments), 'snapshot-segments',
                   'number of segments')
            mon.close(side.length, v.scn['arr']['pvrow_width'], 1e-6,
                      'snapshot-length', 'side length', step=i, row=r)
            mon.close(side.shaded_length, sum(v.L[s.pos, i] for s in ss
                                              if s.shaded), 1e-6,
                      'snapshot-shaded-length', 'shaded length of the side',
                      step=i, row=r)
            want_n = g.nrm if side_name == 'front' else -g.nrm
            if side.n_vector is not None:
                nv = np.asarray(side.n_vector, float)
                mon.close(nv / np.linalg.norm(nv), want_n, 1e-7,
                          'snapshot-normal', 'direction the side faces',
                          step=i, row=r)
            for x in list(side.all_surfaces) + list(lst):
                nv = np.asarray(x.n_vector, float)
                mon.close(nv / np.linalg.norm(nv), want_n, 1e-7,
                          'snapshot-surface-normal',
                          'direction a surface faces', step=i, row=r)
            for q, seg in enumerate(ts_side.list_segments):
                sq = [s for s in ss if s.seg == q]
                with sut.code('snapshot of a segment'):
                    sg = seg.at(i)
                    l1 = seg.surfaces_at_idx(i)
                if seg.n_vector is not None:
                    nv = np.asarray(seg.n_vector, float)[:, i]
                    mon.close(nv / np.linalg.norm(nv), want_n, 1e-7,
                              'segment-normal', 'direction a segment faces',
                              step=i, row=r)
                match(mon, sg.all_surfaces, sq, v, i, val, 'segment.at()')
                match(mon, l1, sq, v, i, val, 'segment.surfaces_at_idx()')
                mon.ok(all(x.shaded for x in
                           sg.shaded_collection.list_surfaces)
                       and not any(x.shaded for x in
                                   sg.illum_collection.list_surfaces),
                       'snapshot-collections', 'shaded and lit parts mixed')
                mon.close(sg.length, v.scn['arr']['pvrow_width']
                          / len(ts_side.list_segments), 1e-6,
                          'snapshot-length', 'segment length', step=i)
        match(mon, flat, mine, v, i, val, 'row.surfaces_at_idx()')
        mon.ok(snap.index == r, 'snapshot-row-index', 'row index',
               got=snap.index, want=r)
        with sut.code('boundary of a row snapshot'):
            b = [(p.x, p.y - YG[0]) for p in snap.boundary]
            hp, lp = snap.highest_point, snap.lowest_point
            si = list(snap.surface_indices)
        mon.ok(same_line(b, [g.e1[r], g.e2[r]], 1e-7), 'snapshot-boundary',
               'ends of the row', step=i, got=b)
        mon.close([hp.y - YG[0], lp.y - YG[0]], [max(g.e1[r][1], g.e2[r][1]),
                                 min(g.e1[r][1], g.e2[r][1])], 1e-7,
                  'snapshot-high-low', 'highest and lowest point', step=i)
        mon.ok(sorted(si) == sorted(x.index for x in snap.all_surfaces),
               'snapshot-indices', 'surface indices of the row', step=i)


def iv(surfs):
    return ref.merge([tuple(sorted((xy(s)[0][0], xy(s)[-1][0])))
                      for s in surfs])


def ground(v, i, val, mon, names, mode):
    gnd = v.arr.ts_ground
    mine = [s for s in v.surfs if s.kind == 'g']
    live = [s for s in mine if v.L[s.pos, i] > ref.TINY]
    want = {}
    for sh in (True, False):
        want[sh] = ref.merge([tuple(sorted(v.C[s.pos, i, :, 0]))
                              for s in live if s.shaded == sh])
    with sut.code('ground collections'):
        colls = [gnd.shaded, gnd.illum]
        lists = [gnd.all_ts_surfaces] + [list(x.list_ts_surfaces)
                                         for x in colls]
    mon.ok([bool(x.shaded) for x in colls] == [True, False],
           'ground-collections', 'shading flags of the collections')
    for sh, l in zip((True, False), lists[1:]):
        mon.ok(sorted(x.index for x in l)
               == sorted(s.ts.index for s in mine if s.shaded == sh),
               'ground-collections', 'surfaces of the collections')
    with sut.code('ground lists at a timestep'):
        a = gnd.non_point_surfaces_at(i)
        b = gnd.non_point_shaded_surfaces_at(i)
        c = gnd.non_point_illum_surfaces_at(i)
        cnt = gnd.n_non_point_surfaces_at(i)
    match(mon, a, mine, v, i, val, 'ground.non_point_surfaces_at()')
    match(mon, b, [s for s in mine if s.shaded], v, i, val,
          'ground.non_point_shaded_surfaces_at()')
    match(mon, c, [s for s in mine if not s.shaded], v, i, val,
          'ground.non_point_illum_surfaces_at()')
    mon.ok(cnt == len(a) == len(b) + len(c), 'ground-count',
           'number of surfaces', got=cnt, want=len(a))
    where = {id(s.ts): s for s in mine}
    for el in gnd.shadow_elements + gnd.illum_elements:
        own = [where[id(x)] for x in el.all_ts_surfaces]
        with sut.code('surfaces of a ground element at a timestep'):
            a = el.surfaces_at(i)
            b = el.non_point_surfaces_at(i)
        match(mon, b, own, v, i, val, 'element.non_point_surfaces_at()')
        match(mon, [s for s in a if not s.is_empty], own, v, i, val,
              'element.surfaces_at()')
        mon.ok(len(a) == len(own), 'ground-element-count',
               'one entry per surface, even for points')
        x = [xy(s)[0][0] + xy(s)[-1][0] for s in b]
        mon.ok(all(p <= q + 1e-9 for p, q in zip(x, x[1:])),
               'ground-element-order', 'from left to right', got=x)
        mon.hit('element-several', len(b) > 1)
    base = None
    for cuts in (True, False):
        for mg in (False, True):
            what = 'ground.at(merge=%s, cut points=%s)' % (mg, cuts)
            with sut.code(what):
                snap = gnd.at(i, merge_if_flag_overlap=mg,
                              with_cut_points=cuts)
                surfs = snap.all_surfaces
                bd = sorted(p.x for p in snap.boundary)
                lim = gnd.at(i, x_min_max=(-100., 100.),
                             merge_if_flag_overlap=mg, with_cut_points=cuts)
                ends = [p.y for p in snap.boundary] \
                    + [p.y for p in lim.boundary]
                same = [xy(s).tolist() for s in lim.all_surfaces] \
                    == [xy(s).tolist() for s in surfs]
                sl, tl = snap.shaded_length, snap.length
            if cuts and not mg:
                match(mon, surfs, mine, v, i, val, what)
                base = surfs
            for sh in (True, False):
                got = iv([s for s in surfs if bool(s.shaded) == sh])
                mon.close(ref.symdiff(got, want[sh]), 0., 1e-6,
                          'ground-cover', '%s: %s ground' % (
                              what, 'shaded' if sh else 'lit'), step=i,
                          got_iv=got, want_iv=want[sh])
                # parts of a snapshot do not overlap
                mon.close(sum(s.length for s in surfs
                              if bool(s.shaded) == sh), ref.measure(got),
                          1e-6, 'ground-overlap', what, step=i)
            mon.close([bd[0], bd[-1]], [-100., 100.], 1e-9, 'ground-bounds',
                      what, step=i)
            mon.close(ends, YG[0], 1e-12, 'ground-bounds', what + ': height',
                      step=i)
            mon.ok(same, 'ground-bounds', what + ': with the bounds given',
                   step=i)
            mon.close(sl, ref.measure(want[True]), 1e-6,
                      'ground-shaded-length', what, step=i)
            mon.close(tl, 200., 1e-6, 'ground-length', what, step=i)
            mon.close([xy(s)[:, 1] for s in surfs], 0., 1e-9,
                      'ground-level', what, step=i)
            if mg:
                n_sh = sum(1 for s in surfs if s.shaded)
                n_0 = sum(1 for s in base if s.shaded)
                mon.leq(n_sh, n_0, 0, 'ground-merge-count', what, step=i)
                mon.hit('merged', n_sh < n_0)
            if cuts:
                named(mon, surfs, live, v, i, val, what)
            inputs = [k for k in names if k in (
                'rho', 'inv_rho', 'direct', 'circumsolar', 'horizon',
                'total_perez')]
            for s in surfs:
                src = [x for x in live if x.shaded == bool(s.shaded)]
                if not src or s.length < ref.TINY:
                    continue
                for k in inputs:
                    with sut.code('get_param of a ground snapshot'):
                        y = float(s.get_param(k))
                    w = val[src[0].pos][k][i]
                    if k == 'inv_rho':      # (infinite for a black ground)
                        y, w = np.arctan(y), np.arctan(w)
                    mon.close(y, w, 0., 'ground-value',
                              '%s: %s' % (what, k), step=i)


def named(mon, surfs, live, v, i, val, what):
    """Each surface is (a part, or the union, of) the one its index names,
    and carries the values of that one."""
    by = {s.ts.index: s for s in live}
    seen = [s.index for s in surfs if s.length > ref.TINY]
    mon.ok(len(set(seen)) == len(seen), 'ground-index-once',
           what + ': an index is there twice', step=i, indices=seen)
    for s in surfs:
        if s.length < ref.TINY:
            continue
        o = by.get(s.index)
        if not mon.ok(o is not None and o.shaded == bool(s.shaded),
                      'ground-index', '%s: index %s' % (what, s.index),
                      step=i):
            continue
        a, b = sorted((xy(s)[0][0], xy(s)[-1][0]))
        c, d = sorted(v.C[o.pos, i, :, 0])
        mon.ok(a <= c + 1e-7 and d <= b + 1e-7, 'ground-index',
               '%s: index %s is another place' % (what, s.index), step=i,
               got=[a, b], want=[c, d])
        values(mon, s, val[o.pos], i, '%s index %s' % (what, s.index))


def plots(v, i, mon, pick):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    from pvfactors.config import COLOR_DIC
    ax = Figure().add_subplot(111)
    with_index = pick % 2 == 0
    with sut.code('plot_at_idx'):
        v.arr.plot_at_idx(i, ax, with_surface_index=with_index,
                          merge_if_flag_overlap=pick % 3 != 0,
                          with_cut_points=pick % 5 != 0)
    mon.hit('plot')
    drawn = {}
    for ln in ax.lines:
        if ln.get_linestyle() in ('None', '', ' ', 'none'):
            continue
        p = np.asarray(ln.get_xydata(), float) - [0., YG[0]]
        if len(p) < 2 or np.hypot(*(p[-1] - p[0])) < ref.TINY:
            continue
        drawn.setdefault(to_hex(ln.get_color()), []).append(p)
    hexc = {k: to_hex(COLOR_DIC[k]) for k in (
        'pvrow_illum', 'pvrow_shaded', 'ground_illum', 'ground_shaded')}
    for kind, nm in (('r', 'pvrow'), ('g', 'ground')):
        for sh in (True, False):
            color = hexc['%s_%s' % (nm, 'shaded' if sh else 'illum')]
            mine = [s for s in v.surfs if s.kind == kind and s.shaded == sh
                    and v.L[s.pos, i] > ref.TINY]
            lines = [p for p in drawn.get(color, [])
                     if (np.abs(p[:, 1]).max() < 1e-9) == (kind == 'g')]
            if kind == 'g':
                a = ref.merge([tuple(sorted((p[0, 0], p[-1, 0])))
                               for p in lines])
                b = ref.merge([tuple(sorted(v.C[s.pos, i, :, 0]))
                               for s in mine])
                mon.close(ref.symdiff(a, b), 0., 1e-6, 'plot-ground',
                          'ground drawn as %s' % ('shaded' if sh else 'lit'),
                          step=i, got_iv=a, want_iv=b)
            else:
                mon.ok(len(lines) == len(mine), 'plot-count',
                       'lines drawn for the rows', got=len(lines),
                       want=len(mine), step=i)
                for s in mine:
                    mon.ok(any(same_line(p[[0, -1]], v.C[s.pos, i])
                               for p in lines), 'plot-rows',
                           'not drawn with its colour: ' + s.label, step=i)
    arr = v.scn['arr']
    d = arr['pvrow_width'] / arr['gcr']
    if not YG[0]:
        mon.close(list(ax.get_xlim()) + list(ax.get_ylim()), [
            -.5 * d, (arr['n_pvrows'] - .5) * d, -arr['pvrow_height'],
            2. * arr['pvrow_height']], 1e-9, 'plot-limits', 'region shown',
            step=i)
    if with_index:
        mon.hit('plot-index')
        texts = sorted(t.get_text() for t in ax.texts)
        exact = pick % 3 == 0 and pick % 5 != 0   # ground surfaces as they are
        mon.hit('plot-index-ground', exact)
        for s in v.surfs:
            if (s.kind == 'g' and not exact) or v.L[s.pos, i] <= ref.TINY \
                    or abs(v.C[s.pos, i, :, 0].mean()) >= 49.:
                continue
            w = str(s.ts.index)
            mon.ok(w in texts, 'plot-index', 'index %s not shown' % w,
                   step=i)
            if w in texts:
                texts.remove(w)
            # next to the middle of the surface
            near = [t for t in ax.texts if t.get_text() == w]
            mid = v.C[s.pos, i].mean(axis=0) + [0., YG[0]]
            mon.ok(any(np.hypot(*(np.asarray(t.get_position(), float) - mid))
                       < .3 for t in near), 'plot-index-place',
                   'index %s away from its surface' % w, step=i)


def drawn_lines(ax):
    """Colour and end points of what was drawn, except single points."""
    from matplotlib.colors import to_hex
    out = []
    for ln in ax.lines:
        p = np.asarray(ln.get_xydata(), float) - [0., YG[0]]
        if ln.get_linestyle() in ('None', '', ' ', 'none') or len(p) < 2 \
                or np.hypot(*(p[-1] - p[0])) < ref.TINY:
            continue
        out.append((to_hex(ln.get_color()), p[[0, -1]]))
    return out


def parts(v, i, mon, pick):
    """One row, side, segment or surface drawn alone."""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    from pvfactors.config import COLOR_DIC
    mine = [s for s in v.surfs if s.kind == 'r']
    row = v.arr.ts_pvrows[pick % len(v.arr.ts_pvrows)]
    side = (row.front, row.back)[(pick // 3 + i) % 2]
    seg = side.list_segments[(pick // 5 + i) % len(side.list_segments)]
    own = pick % 2 == 0
    kw = {'color_shaded': '#102030', 'color_illum': '#fa0b0c'} if own else {}
    hexc = {True: to_hex(kw.get('color_shaded', COLOR_DIC['pvrow_shaded'])),
            False: to_hex(kw.get('color_illum', COLOR_DIC['pvrow_illum']))}
    cells = [('row', row, row.all_ts_surfaces),
             ('side', side, side.all_ts_surfaces),
             ('segment', seg, seg.all_ts_surfaces)]
    for what, obj, sub in cells:
        ids = {id(x) for x in sub}
        want = [s for s in mine if id(s.ts) in ids]
        mon.ok(len(want) == len(sub), 'plot-part-surfaces',
               'surfaces of a ' + what, got=len(want), want=len(sub))
        ax = Figure().add_subplot(111)
        with sut.code('plot_at_idx of a ' + what):
            obj.plot_at_idx(i, ax, **kw)
        compare_drawn(mon, ax, [(hexc[bool(s.shaded)], v.C[s.pos, i])
                                for s in want if v.L[s.pos, i] > ref.TINY],
                      what, i)
    for s in mine[pick % 3::7]:
        color = hexc[bool(s.shaded)]
        ax = Figure().add_subplot(111)
        with sut.code('plot_at_idx of a surface'):
            s.ts.plot_at_idx(i, ax, color)
        compare_drawn(mon, ax, [(color, v.C[s.pos, i])]
                      if v.L[s.pos, i] > ref.TINY else [], s.label, i)


def compare_drawn(mon, ax, want, what, i):
    mon.hit('plot-part')
    lines = drawn_lines(ax)
    mon.ok(len(lines) == len(want), 'plot-part-count', 'lines of a ' + what,
           step=i, got=len(lines), want=len(want))
    for color, c in want:
        mon.ok(any(k == color and same_line(p, c) for k, p in lines),
               'plot-part', '%s: not drawn with its colour' % what, step=i,
               want=c, color=color, got=lines)
