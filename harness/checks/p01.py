"""P01: the fitted PV array is the described one, at every timestep."""
import numpy as np
from .. import cases, core, sut, view
from ..ref import TINY, X_GROUND

ID = 'P01'
RULE = ('random and directed array layouts, cuts and orientations; a case is '
        'non-trivial per distinct (orientation, side, cut, sun side, number '
        'of rows) situation whose coordinates were compared')
COUNT = {'quick': 1680, 'thorough': 9000}
REQUIRED = {'step': 1000, 'flat': 20, 'over': 50, 'cut': 200, 'left': 100,
            'single_row': 20, 'segments': 500, 'shade_front': 20,
            'shade_back': 20}
shrink = core.shrink_steps
TOL = 1e-7


def corners(tier):
    return cases.corner_cases(model='isotropic')


def gen(rng, k, tier):
    return cases.random_case(rng, k, tier, max_zenith=89.9)


def judge(case, mon):
    v = view.fitted(case['scn'])
    arr, scn = v.arr, case['scn']
    a, t = scn['arr'], scn['t']
    n, R = v.n, a['n_pvrows']
    with sut.code('reading the array layout'):
        rows = arr.ts_pvrows
        mon.ok(len(rows) == R, 'row-count', 'wrong number of rows',
               got=len(rows), want=R)
        full = np.stack([sut.coords(_S(r.full_pvrow_coords), n)
                         for r in rows])
        rot = np.broadcast_to(np.asarray(arr.rotation_vec, float), n)
        hi = np.stack([np.broadcast_to(r.highest_point.y, n) for r in rows])
        cent = np.stack([[np.broadcast_to(r.centroid.x, n),
                          np.broadcast_to(r.centroid.y, n)] for r in rows])
        lens = np.stack([np.broadcast_to(r.length, n) for r in rows])
    for i in range(n):
        st = v.step(i)
        g = st.geo
        mon.sig(st.classes(mon))
        # both ends of every row, in the frame seen along the axis
        mon.close(full[:, i, 0], g.e1, TOL, 'row-ends',
                  'row end (left when facing up) misplaced', step=i)
        mon.close(full[:, i, 1], g.e2, TOL, 'row-ends',
                  'row end (right when facing up) misplaced', step=i)
        mon.close(hi[:, i], np.maximum(g.e1[:, 1], g.e2[:, 1]), TOL,
                  'row-highest', 'highest point', step=i)
        mon.close(cent[:, :, i], g.cen, TOL, 'row-center', 'row centre',
                  step=i)
        # rotation is the signed tilt: positive when the front faces left
        mon.close(np.abs(rot[i]), t['tilt'][i], TOL, 'rotation-size',
                  'rotation is not the tilt', step=i)
        if 1e-9 < t['tilt'][i] < 180. - 1e-9:
            mon.ok((rot[i] > 0) == (g.nrm[0] < 0), 'rotation-sign',
                   'rotation sign does not match where the front faces',
                   step=i, rotation=rot[i])
    # a row has a front and a back side
    mon.close(lens, 2 * a['pvrow_width'], TOL, 'row-length',
              'a row is front plus back side')
    ground(v, mon)
    # sides, segments, surfaces
    cut = a.get('cut', {})
    C, L = v.C, v.L
    nrm = np.stack([v.step(i).geo.nrm for i in range(n)])
    e1 = np.stack([v.step(i).geo.e1 for i in range(n)])
    e2 = np.stack([v.step(i).geo.e2 for i in range(n)])
    for r, row in enumerate(rows):
        for name, side, sgn in (('front', row.front, 1.),
                                ('back', row.back, -1.)):
            ncut = int(cut.get(str(r), {}).get(name, 1))
            segs = side.list_segments
            with sut.code('reading a side'):
                slen = np.broadcast_to(np.asarray(side.length, float), n)
                snv = np.asarray(side.n_vector, float)
            mon.close(slen, a['pvrow_width'], TOL, 'side-length',
                      'row %d %s' % (r, name))
            direction(mon, snv, sgn * nrm, 'side-normal',
                      'row %d %s' % (r, name))
            mon.ok(len(segs) == ncut, 'segment-count',
                   'row %d %s' % (r, name), got=len(segs), want=ncut)
            mon.hit('segments', len(segs) > 1)
            for k, seg in enumerate(segs):
                sc = sut.coords(_S(seg.coords), n)
                f0, f1 = k / ncut, (k + 1.) / ncut
                u = e2[:, r] - e1[:, r]
                want0, want1 = e1[:, r] + f0 * u, e1[:, r] + f1 * u
                mon.close(sc[:, 0], want0, TOL, 'segment-place',
                          'row %d %s segment %d start' % (r, name, k))
                mon.close(sc[:, 1], want1, TOL, 'segment-place',
                          'row %d %s segment %d end' % (r, name, k))
                with sut.code('reading a segment'):
                    gl = np.broadcast_to(np.asarray(seg.length, float), n)
                    gc = point(seg.centroid, n)
                    hi_, lo_ = point(seg.highest_point, n), point(
                        seg.lowest_point, n)
                    gn = np.asarray(seg.n_vector, float)
                    flags = [bool(x.shaded) for x in
                             seg.illum.list_ts_surfaces
                             + seg.shaded.list_ts_surfaces]
                where = 'row %d %s segment %d' % (r, name, k)
                mon.close(gl, a['pvrow_width'] / ncut, TOL, 'segment-length',
                          where)
                mon.close(gc, .5 * (want0 + want1), TOL, 'segment-centre',
                          where)
                mon.close(hi_[:, 1], np.maximum(want0, want1)[:, 1], TOL,
                          'segment-highest', where)
                mon.close(lo_[:, 1], np.minimum(want0, want1)[:, 1], TOL,
                          'segment-lowest', where)
                direction(mon, gn, sgn * nrm, 'segment-normal', where)
                mon.ok(flags == [False, True], 'segment-parts',
                       'a segment is not one illuminated and one shaded '
                       'part: ' + where, got=flags)
                # surfaces tile the segment
                mine = [s for s in v.surfs if s.kind == 'r' and s.row == r
                        and s.side == name and s.seg == k]
                tot = sum(L[s.pos] for s in mine)
                mon.close(tot, a['pvrow_width'] / ncut, TOL, 'segment-tiled',
                          'surfaces of row %d %s segment %d do not add up'
                          % (r, name, k))
                iv = []
                for s in mine:
                    p = np.einsum('nek,nk->ne', C[s.pos] - want0[:, None],
                                  u) / a['pvrow_width'] ** 2 * ncut
                    off = np.abs(np.einsum(
                        'nek,nk->ne', C[s.pos] - want0[:, None], nrm))
                    live = L[s.pos] > TINY
                    mon.leq(off[live], 0., TOL, 'surface-on-row',
                            'surface off its row: ' + s.label)
                    p = np.sort(p, axis=1)
                    mon.leq(-p[live], 0., 1e-6, 'surface-in-segment',
                            'surface leaves its segment: ' + s.label)
                    mon.leq(p[live], 1., 1e-6, 'surface-in-segment',
                            'surface leaves its segment: ' + s.label)
                    iv.append((p, live))
                    with sut.code('reading a surface'):
                        c = point(s.ts.centroid, n)
                        h, l_ = point(s.ts.highest_point, n), point(
                            s.ts.lowest_point, n)
                        ln = np.broadcast_to(np.asarray(s.ts.length, float),
                                             n)
                    mon.close(c, C[s.pos].mean(1), TOL, 'surface-centre',
                              s.label)
                    mon.close(h[:, 1], C[s.pos][:, :, 1].max(1), TOL,
                              'surface-highest', s.label)
                    mon.close(l_[:, 1], C[s.pos][:, :, 1].min(1), TOL,
                              'surface-lowest', s.label)
                    mon.close(ln, L[s.pos], TOL, 'surface-length', s.label)
                    nv = np.asarray(s.ts.n_vector, float)
                    if nv.ndim == 2:
                        nv = nv / np.maximum(np.hypot(nv[0], nv[1]), 1e-300)
                        mon.close(nv.T[live], sgn * nrm[live], 1e-6,
                                  'normal', 'normal vector of ' + s.label)
                for x in range(len(iv)):
                    for y in range(x):
                        both = iv[x][1] & iv[y][1]
                        ov = (np.minimum(iv[x][0][:, 1], iv[y][0][:, 1])
                              - np.maximum(iv[x][0][:, 0], iv[y][0][:, 0]))
                        mon.leq(ov[both], 0., 1e-6, 'surface-overlap',
                                'surfaces overlap on row %d %s' % (r, name))
    # numbering of the surfaces
    with sut.code('surface indices'):
        idx = [s.index for s in arr.all_ts_surfaces]
        mon.ok(idx == list(range(len(idx))), 'surface-numbering',
               'indices are not positions', got=idx[:50])
        mon.ok(list(arr.ts_surface_indices) == idx, 'surface-numbering',
               'ts_surface_indices differ')
        mon.ok(arr.n_ts_surfaces == len(idx), 'surface-numbering',
               'n_ts_surfaces', got=arr.n_ts_surfaces, want=len(idx))


def point(p, n):
    """(n, 2) coordinates of a timeseries point."""
    return np.stack([np.broadcast_to(np.asarray(p.x, float), n),
                     np.broadcast_to(np.asarray(p.y, float), n)], 1)


def direction(mon, vec, want, rule, msg):
    """A normal vector, of any length, points in the wanted direction."""
    if vec.ndim != 2 or vec.shape[0] != 2:
        vec = vec.T if vec.ndim == 2 else vec.reshape(2, -1)
    vec = vec / np.maximum(np.hypot(vec[0], vec[1]), 1e-300)
    mon.close(vec.T, want, 1e-6, rule, msg)


def ground(v, mon):
    """The ground is the horizontal line y = 0 from -100 to 100 m."""
    gs = [s for s in v.surfs if s.kind == 'g']
    C = np.stack([v.C[s.pos] for s in gs])             # (G, n, 2, 2)
    mon.close(C[..., 1], 0., 1e-9, 'ground-flat', 'the ground is at y = 0')
    mon.close(C[..., 0].min((0, 2)), -X_GROUND, TOL, 'ground-start',
              'left end of the ground')
    mon.close(C[..., 0].max((0, 2)), X_GROUND, TOL, 'ground-end',
              'right end of the ground')
    tot = sum(v.L[s.pos] for s in gs)
    mon.close(tot, 2 * X_GROUND, 1e-6, 'ground-tiled', 'ground length')
    with sut.code('reading the ground'):
        ln = np.broadcast_to(np.asarray(v.arr.ts_ground.length, float), v.n)
    mon.close(ln, 2 * X_GROUND, 1e-6, 'ground-length', 'ground length')


class _S(object):
    def __init__(self, coords):
        self.coords = coords
