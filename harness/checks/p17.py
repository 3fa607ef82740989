"""P17: aggregated values are length weighted sums and averages of the
surfaces, and updating a part of the array updates exactly that part."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P17'
RULE = ('random and directed simulations in full or fast mode, whose '
        'collections, segments, sides, ground elements, ground and snapshots '
        'are asked for weighted and length-multiplied values of every '
        'result; then random parts get new parameters; non-trivial per '
        'distinct situation of a timestep, mode and level of aggregation')
COUNT = {'quick': 600, 'thorough': 4000}
REQUIRED = {'step': 800, 'flat': 20, 'over': 40, 'shade_front': 60,
            'shade_back': 20, 'cut': 100, 'full': 40, 'fast': 20,
            'weighted': 2000, 'mixed': 100, 'snapshot': 200, 'update': 100,
            'missing': 50, 'holes': 300}
shrink = core.shrink_steps
TOL = 1e-9


def corners(tier):
    return [dict(c, mode=('full', 'fast')[i % 2], seed=i,
                 row=i % c['scn']['arr']['n_pvrows'])
            for i, c in enumerate(cases.corner_cases())]


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89.7, long_every=53,
                          long_n=120, many=(5, 8))
    c['mode'] = ('full', 'fast', 'full')[k % 3]
    c['seed'] = int(rng.integers(0, 2 ** 31))
    c['row'] = int(rng.integers(0, c['scn']['arr']['n_pvrows']))
    return c


def groups(v):
    """(label, object, surfaces) of every part that aggregates."""
    arr = v.arr
    by = {}
    for s in v.surfs:
        by.setdefault((s.kind, s.row, s.side, s.seg, s.shaded), []).append(s)
    out = []
    for r, row in enumerate(arr.ts_pvrows):
        for nm in ('front', 'back'):
            side = getattr(row, nm)
            tot = []
            for k, seg in enumerate(side.list_segments):
                il = by.get(('r', r, nm, k, False), [])
                sh = by.get(('r', r, nm, k, True), [])
                out.append(('lit part', seg.illum, il))
                out.append(('shaded part', seg.shaded, sh))
                out.append(('segment', seg, il + sh))
                tot += il + sh
            out.append(('side', side, tot))
    g = [s for s in v.surfs if s.kind == 'g']
    where = {id(s.ts): s for s in g}
    for el in arr.ts_ground.shadow_elements + arr.ts_ground.illum_elements:
        out.append(('ground element', el,
                    [where[id(x)] for x in el.all_ts_surfaces]))
    out.append(('ground', arr.ts_ground, g))
    out.append(('ground shaded', arr.ts_ground.shaded,
                [s for s in g if s.shaded]))
    out.append(('ground lit', arr.ts_ground.illum,
                [s for s in g if not s.shaded]))
    return out


def judge(case, mon):
    scn, mode = case['scn'], case['mode']
    rng = np.random.default_rng(case['seed'])
    eng = sut.fit_engine(scn)
    names = ['rho', 'direct', 'total_perez']
    if mode == 'full':
        with sut.code('run_full_mode'):
            eng.run_full_mode()
        names += ['qinc', 'q0', 'qabs', 'isotropic', 'reflection']
    else:
        with sut.code('run_fast_mode'):
            eng.run_fast_mode(pvrow_index=case['row'])
    mon.hit(mode)
    v = view.View(scn, eng.pvarray, eng)
    n = v.n
    with sut.code('parts of the array'):
        gr = groups(v)
    for i in range(n):
        mon.sig(mode, v.step(i).classes(mon))
    back = 'fast' if mode == 'fast' else None
    for lab, obj, surfs in gr:
        mine = list(names)
        if back and lab in ('side', 'segment') and surfs and all(
                s.side == 'back' and s.row == case['row'] for s in surfs):
            mine += ['qinc', 'isotropic', 'reflection']
        judge_group(mon, v, lab, obj, surfs, mine, n)
    holes(mon, v, gr, rng, n)
    snapshots(mon, v, case, names, rng)
    updates(mon, v, gr, rng, n)


def arrays(v, surfs, k, n):
    with sut.code('get_param'):
        return np.stack([np.broadcast_to(np.asarray(
            s.ts.get_param(k), float), n) for s in surfs])


def judge_group(mon, v, lab, obj, surfs, names, n):
    if not surfs:
        return
    L = np.stack([v.L[s.pos] for s in surfs])
    tot = L.sum(0)
    with sut.code('length of ' + lab):
        ln = np.broadcast_to(np.asarray(obj.length, float), n)
    mon.close(ln, tot, 1e-7, 'length', lab)
    if hasattr(obj, 'shaded_length'):
        sh = np.array([s.shaded for s in surfs])
        with sut.code('shaded_length of ' + lab):
            sl = np.broadcast_to(np.asarray(obj.shaded_length, float), n)
        mon.close(sl, L[sh].sum(0), 1e-7, 'shaded-length', lab)
    if hasattr(obj, 'n_ts_surfaces'):
        with sut.code('n_ts_surfaces'):
            mon.ok(obj.n_ts_surfaces == len(surfs), 'surface-count', lab,
                   got=obj.n_ts_surfaces, want=len(surfs))
    for nm, sh in (('n_ts_shaded_surfaces', True),
                   ('n_ts_illum_surfaces', False)):
        if hasattr(obj, nm):
            mon.ok(getattr(obj, nm) == sum(bool(s.shaded) == sh
                                           for s in surfs),
                   'surface-count', lab + ': ' + nm, got=getattr(obj, nm))
    live = tot > 1e-3
    for k in names:
        x = arrays(v, surfs, k, n)
        with np.errstate(all='ignore'):
            ww = np.where(L > 0, L * x, 0.).sum(0)
        sc = np.maximum(np.abs(np.where(L > 0, x, 0.)).max(0), 1.)
        with sut.code('get_param_ww(%s) of %s' % (k, lab)):
            got = np.broadcast_to(np.asarray(obj.get_param_ww(k), float), n)
        # a value that is undefined on a point is not judged
        fin = np.isfinite(x).all(0)
        mon.close(got[fin], ww[fin], 1e-7, 'length-multiplied:' + k, lab,
                  scale=(sc * np.maximum(tot, 1.))[fin])
        ok = live & fin
        if not ok.any():
            continue
        with sut.code('get_param_weighted(%s) of %s' % (k, lab)):
            avg = np.broadcast_to(np.asarray(
                obj.get_param_weighted(k), float), n)
        mon.hit('weighted', int(ok.sum()))
        mon.close(avg[ok], (ww / np.where(tot > 0, tot, 1.))[ok], 1e-7,
                  'weighted:' + k, lab, scale=sc[ok])
        m = L > 0
        lo = np.where(m, x, np.inf).min(0)
        hi = np.where(m, x, -np.inf).max(0)
        mon.hit('mixed', int((ok & (m.sum(0) > 1) & (hi > lo)).sum()))
        mon.leq(avg[ok], hi[ok], 1e-7, 'average-in-range:' + k, lab,
                scale=sc[ok])
        mon.leq(lo[ok], avg[ok], 1e-7, 'average-in-range:' + k, lab,
                scale=sc[ok])
    for f in ('get_param_ww', 'get_param_weighted'):
        mon.hit('missing')
        try:
            getattr(obj, f)('no such result')
            mon.ok(False, 'unknown-result', lab + ': a result that does not '
                   'exist has a value')
        except KeyError:
            mon.ev('unknown-result')
        except Exception as e:
            mon.ok(False, 'unknown-result', '%s: %s(%s) instead of KeyError'
                   % (lab, type(e).__name__, e))


def holes(mon, v, gr, rng, n):
    """A value that is missing on a surface of positive length is missing in
    the averages of that timestep, and only of that timestep."""
    for s in v.surfs:
        x = rng.uniform(0, 1, n)
        x[rng.random(n) < .15] = np.nan
        s.ts.update_params({'holes': x})
    for lab, obj, surfs in gr:
        if not surfs:
            continue
        x = arrays(v, surfs, 'holes', n)
        L = np.stack([v.L[s.pos] for s in surfs])
        gone = (np.isnan(x) & (L > 1e-6)).any(0)
        full = ~np.isnan(x).any(0) & (L.sum(0) > 1e-3)
        for f in ('get_param_ww', 'get_param_weighted'):
            with sut.code('%s of %s with missing values' % (f, lab)):
                got = np.broadcast_to(np.asarray(
                    getattr(obj, f)('holes'), float), n)
            mon.hit('holes', int(gone.sum()))
            mon.ok(np.isnan(got[gone]).all(), 'missing-value-average',
                   '%s of %s has a value although a surface has none' % (
                       f, lab))
            mon.ok(np.isfinite(got[full]).all(), 'missing-value-spreads',
                   '%s of %s misses a value although all surfaces have one'
                   % (f, lab))


def snapshots(mon, v, case, names, rng):
    """Aggregation on the geometry objects at a timestep."""
    n = v.n
    for i in {int(rng.integers(0, n)), int(rng.integers(0, n))}:
        for r, row in enumerate(v.arr.ts_pvrows):
            with sut.code('pvrow.at'):
                snap = row.at(i)
            for nm in ('front', 'back'):
                side = getattr(snap, nm)
                objs = [('side snapshot', side)]
                for seg in side.list_segments:
                    objs += [('segment snapshot', seg),
                             ('collection snapshot', seg.illum_collection),
                             ('collection snapshot', seg.shaded_collection)]
                for lab, o in objs:
                    snap_group(mon, lab, o, names)
        with sut.code('ground.at'):
            g = v.arr.ts_ground.at(i, merge_if_flag_overlap=False)
        snap_group(mon, 'ground snapshot', g, names)
        snap_updates(mon, v, i)
        mon.hit('snapshot')


def snap_updates(mon, v, i):
    """New parameters of a part of a snapshot reach all of that part, and
    neither the rest of the snapshot nor the simulation."""
    with sut.code('snapshots'):
        snaps = [row.at(i) for row in v.arr.ts_pvrows]
        gnd = v.arr.ts_ground.at(i)
    with sut.code('parts of snapshots'):
        everything = [s for x in snaps + [gnd] for s in x.all_surfaces]
        parts = [('ground', gnd)]
        for x in snaps:
            parts.append(('row', x))
            for side in (x.front, x.back):
                parts.append(('side', side))
                for seg in side.list_segments:
                    parts += [('segment', seg),
                              ('collection', seg.illum_collection),
                              ('collection', seg.shaded_collection)]
        for q, (lab, o) in enumerate(parts):
            for s in everything:
                s.update_params({'mark': -1.})
            o.update_params({'mark': float(q)})
            mine = {id(s) for s in (o.list_surfaces
                                    if hasattr(o, 'list_surfaces')
                                    else o.all_surfaces)}
            bad = [s for s in everything if s.get_param('mark')
                   != (float(q) if id(s) in mine else -1.)]
            mon.ok(not bad, 'snapshot-update-' + lab, 'updating a %s of a '
                   'snapshot does not reach all and only its surfaces' % lab)
        for cuts in (True, False):
            for mg in (True, False):
                surfs = v.arr.ts_ground.at(i, merge_if_flag_overlap=mg,
                                           with_cut_points=cuts).all_surfaces
                for q, s in enumerate(surfs):
                    s.update_params({'mark': float(q)})
                mon.ok([s.get_param('mark') for s in surfs]
                       == [float(q) for q in range(len(surfs))],
                       'snapshot-update-surface', 'updating a surface of a '
                       'ground snapshot changes another one', cuts=cuts,
                       merge=mg)
        for x in snaps:
            surfs = x.all_surfaces
            for q, s in enumerate(surfs):
                s.update_params({'mark': float(q)})
            mon.ok([s.get_param('mark') for s in surfs]
                   == [float(q) for q in range(len(surfs))],
                   'snapshot-update-surface', 'updating a surface of a row '
                   'snapshot changes another one')
    known = [s.label for s in v.surfs if 'mark' in s.ts.params]
    mon.ok(not known, 'snapshot-update-simulation', 'updating a snapshot '
           'changed the simulation', surfaces=known[:5])


def snap_group(mon, lab, o, names):
    with sut.code(lab):
        surfs = (o.list_surfaces if hasattr(o, 'list_surfaces')
                 else o.all_surfaces)
        if not surfs:
            return
        L = np.array([s.length for s in surfs])
        mon.close(o.length, L.sum(), 1e-7, 'snapshot-length', lab)
        mon.ok(o.n_surfaces == len(surfs), 'snapshot-count', lab)
        for k in names:
            x = np.array([float(s.get_param(k)) for s in surfs])
            if not np.isfinite(x).all():
                continue
            sc = max(np.abs(x).max(), 1.)
            mon.close(o.get_param_ww(k), L @ x, 1e-8,
                      'snapshot-length-multiplied', lab + ' ' + k,
                      scale=sc * max(L.sum(), 1.))
            mon.close(o.get_param_weighted(k), L @ x / L.sum(), 1e-8,
                      'snapshot-weighted', lab + ' ' + k, scale=sc)


def updates(mon, v, gr, rng, n):
    """New parameters reach exactly the surfaces of the part."""
    arr = v.arr
    parts = [(lab, o.update_params, surfs) for lab, o, surfs in gr
             if hasattr(o, 'update_params')]
    g = [s for s in v.surfs if s.kind == 'g']
    parts += [('whole array', arr.update_params, list(v.surfs)),
              ('ground lit', arr.ts_ground.update_illum_params,
               [s for s in g if not s.shaded]),
              ('ground shaded', arr.ts_ground.update_shaded_params,
               [s for s in g if s.shaded])]
    for r, row in enumerate(arr.ts_pvrows):
        parts.append(('row', row.update_params,
                      [s for s in v.surfs if s.kind == 'r' and s.row == r]))
    order = [int(x) for x in rng.permutation(len(parts))]
    for q, k in enumerate(order if len(parts) < 40 else order[:12]):
        lab, fn, surfs = parts[k]
        name = 'new result %d' % q
        x = rng.uniform(0, 1, n)
        y = rng.uniform(0, 1, n)
        for s in v.surfs:
            s.ts.update_params({name: y})
        with sut.code('update_params'):
            fn({name: x})
        mon.hit('update')
        mine = {s.pos for s in surfs}
        for s in v.surfs:
            with sut.code('get_param'):
                got = s.ts.get_param(name)
            want = x if s.pos in mine else y
            mon.ok(np.array_equal(got, want), 'update-' + lab,
                   'updating the %s: %s has %s value' % (
                       lab, s.label, 'the old' if s.pos in mine
                       else 'the new'))
        if getattr(fn, '__self__', None) is arr.ts_ground:
            whole_ground(mon, arr, lab, name, x, n)


def whole_ground(mon, arr, lab, name, x, n):
    """The values of the ground as a whole (used where it is not broken up at
    the cut points) are updated along."""
    i = n // 2
    with sut.code('ground snapshot without cut points'):
        snap = arr.ts_ground.at(i, with_cut_points=False)
        for s in snap.all_surfaces:
            if lab == 'ground' or (lab == 'ground shaded') == bool(s.shaded):
                mon.ok(s.params.get(name) == x[i], 'update-whole-ground',
                       'updating the %s: the uncut ground has %s' % (
                           lab, s.params.get(name)))
