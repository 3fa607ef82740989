"""P10: the physics does not depend on how the same scene is described."""
import copy
import numpy as np
from .. import cases, compare, core, sut, view
from ..ref import TINY
from ..scenario import gen_faoi

ID = 'P10'
RULE = ('random and directed scenes simulated twice, in two descriptions of '
        'the same physical scene; non-trivial per distinct situation of a '
        'compared timestep and kind of description change')
COUNT = {'quick': 130, 'thorough': 4500}
REQUIRED = {'azimuth-offset': 300, 'azimuth-wrap': 300, 'faces-swapped': 150,
            'mirror-single': 50, 'mirror-rows': 150, 'axis-reversed': 150,
            'scaled': 150, 'rows-added': 300, 'flat-azimuth': 15, 'raised': 300, 'raised-fast': 300,
            'raised-angles': 150, 'shade_front': 50, 'shade_back': 20}
ASSUMPTIONS = [
    'swapping the names of the two faces is judged with the isotropic sky '
    'model (the hybrid model documents horizon shading for back sides only)',
    'mirroring and scaling several rows change what part of the modelled '
    '+-100 m of ground is seen: only ground independent results are judged, '
    'and fast mode rows facing a neighbor']
shrink = core.shrink_steps
TOL = 1e-7


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        out.append(dict(c, seed=i))
    return out


def gen(rng, k, tier):
    kw = {}
    if k % 4 == 0:
        kw['n_rows'] = 1
    if k % 4 == 1:
        kw['model'] = 'isotropic'
    c = {'scn': None}
    c['scn'] = cases.random_case(rng, k, tier, max_zenith=89.3,
                                 long_every=0, many=(5, 8), **kw)['scn']
    c['seed'] = int(rng.integers(0, 2 ** 31))
    return c


def _t(scn, **kw):
    out = copy.deepcopy(scn)
    for k, f in kw.items():
        out['t'][k] = [float(f(x)) for x in scn['t'][k]]
    return out


def judge(case, mon):
    scn = case['scn']
    rng = np.random.default_rng(case['seed'])
    n = len(scn['t']['zen'])
    a = scn['arr']
    R = a['n_pvrows']
    ok = compare.regular_steps(scn)
    # symmetry of a singular configuration is not judged
    t = scn['t']
    base = compare.full_result(scn)
    scale = compare.scale_of(scn)
    v = view.fitted(scn)
    tags = [v.step(i).classes(mon) for i in range(n)]
    ids = np.arange(n)

    def hit(kind, sel=None):
        sel = ok if sel is None else (ok & sel)
        mon.hit(kind, int(sel.sum()))
        for i in np.flatnonzero(sel):
            mon.sig(kind, tags[i])
        return sel

    # ---- another north
    d = float(np.round(rng.uniform(-180, 180), 3))
    s2 = _t(scn, azi=lambda x: x + d, saz=lambda x: x + d)
    s2['arr']['axis_azimuth'] = a['axis_azimuth'] + d
    sel = hit('azimuth-offset', _off_axis(scn))
    compare.same(mon, base, compare.full_result(s2), ids, ids, TOL,
                 'azimuth-offset', 'turning the whole scene by %s deg '
                 'changes the results' % d, scale, steps_ok=sel, coords=False)
    # ---- azimuth plus or minus a turn
    w = [float(rng.choice([-360., 0., 360.])) for _ in range(3)]
    s2 = _t(scn, azi=lambda x: x + w[0], saz=lambda x: x + w[1])
    s2['arr']['axis_azimuth'] = a['axis_azimuth'] + w[2]
    sel = hit('azimuth-wrap', _off_axis(scn))
    compare.same(mon, base, compare.full_result(s2), ids, ids, TOL,
                 'azimuth-wrap', 'adding turns %s to azimuths changes the '
                 'results' % w, scale, steps_ok=sel)
    # ---- a flat row has no azimuth
    flat = np.array([x == 0. for x in scn['t']['tilt']])
    if (flat & ok).any():
        s2 = copy.deepcopy(scn)
        s2['t']['saz'] = [x + 180. if f else x
                          for x, f in zip(scn['t']['saz'], flat)]
        sel = hit('flat-azimuth', flat)
        compare.same(mon, base, compare.full_result(s2), ids, ids, TOL,
                     'flat-azimuth', 'the azimuth of a flat row changes the '
                     'results', scale, steps_ok=sel)
    # ---- more rows
    m = int(rng.integers(1, 4))
    if R > 1 and (R + m - 1) * a['pvrow_width'] / a['gcr'] < 95.:
        s2 = copy.deepcopy(scn)
        s2['arr']['n_pvrows'] = R + m
        hit('rows-added')
        more_rows(mon, scn, s2, base, compare.full_result(s2), R, ok, scale)
    # ---- the whole scene higher up
    raised(mon, scn, base, ok, scale, rng, hit)
    # ---- front is back
    if scn['irr']['model'] == 'isotropic':
        s2 = _t(scn, tilt=lambda x: 180. - x, saz=lambda x: x + 180.)
        irr = s2['irr']
        irr['rho_front'], irr['rho_back'] = (
            scn['irr'].get('rho_back', .03), scn['irr'].get('rho_front', .01))
        if 'cut' in a:
            s2['arr']['cut'] = {
                k: {o: c[x] for x, o in (('front', 'back'),
                                         ('back', 'front')) if x in c}
                for k, c in a['cut'].items()}
        sel = hit('faces-swapped', _not_flat(scn))
        other = compare.full_result(s2)
        # left to right ordering of the segments also flips
        pair(mon, base, other, lambda s: (s.kind, s.row, s.side, s.seg),
             lambda s: (s.kind, s.row, _o(s.side), _flip(s, s2['arr'])),
             sel, scale, 'faces-swapped',
             ('direct', 'qinc', 'isotropic', 'reflection', 'qabs', 'q0'),
             ground=True)
    # ---- mirror images
    ax = a['axis_azimuth']
    s2 = _t(scn, azi=lambda x: 2 * ax - x, saz=lambda x: 2 * ax - x)
    s2['arr'] = _rev(a)
    s3 = copy.deepcopy(scn)
    s3['arr'] = _rev(a)
    s3['arr']['axis_azimuth'] = ax + 180.
    for kind, s in (('mirror-single' if R == 1 else 'mirror-rows', s2),
                    ('axis-reversed', s3)):
        sel = hit(kind, _off_axis(scn) & _not_flat(scn))
        other = compare.full_result(s)
        names = ['direct', 'rho']
        if scn['irr']['model'] == 'hybrid':
            names += ['circumsolar', 'horizon']
        if R == 1:
            names += ['qinc', 'isotropic', 'reflection', 'qabs', 'q0']
        pair(mon, base, other, lambda s: (s.kind, s.row, s.side, s.seg),
             lambda s: (s.kind, None if s.row is None else R - 1 - s.row,
                        s.side, _flip(s, _rev(a))),
             sel, scale, kind, names, ground=(R == 1))
        row_row(mon, scn, s, sel, kind, R, a)
    fast_pairs(mon, scn, s2, s3, ok & _off_axis(scn) & _not_flat(scn),
               R, a, scale)
    # ---- everything twice as big, one row: same shading
    f = float(np.round(rng.uniform(.3, 1.8), 3))
    if (R - 1) * a['pvrow_width'] * f / a['gcr'] < 90.:
        s2 = copy.deepcopy(scn)
        s2['arr']['pvrow_width'] *= f
        s2['arr']['pvrow_height'] *= f
        sel = hit('scaled')
        other = view.fitted(s2)
        for x, y in zip(v.surfs, other.surfs):
            if x.kind == 'r':
                mon.close(other.L[y.pos][sel], f * v.L[x.pos][sel], 1e-8,
                          'scaled-shading', 'shading changes when the array '
                          'is scaled: ' + x.label, scale=a['pvrow_width'])


def more_rows(mon, scn, s2, x, y, R, sel, scale):
    """Rows added at the right end: what the first R - 1 rows get from the
    sun, the horizon and each other is what they got before."""
    key = {(s.row, s.side, s.seg, s.shaded): s.pos for s in y.surfs
           if s.kind == 'r'}
    mine = [s for s in x.surfs if s.kind == 'r' and s.row < R - 1]
    p1 = [s.pos for s in mine]
    p2 = [key[(s.row, s.side, s.seg, s.shaded)] for s in mine]
    mon.close(y.C[p2][:, sel], x.C[p1][:, sel], 1e-9, 'rows-added-geometry',
              'rows change when others are added')
    live = (x.L[p1] > TINY) & (y.L[p2] > TINY) & sel[None, :]
    sc = np.broadcast_to(scale[None, :], live.shape)[live]
    names = ['direct', 'rho', 'direct_absorbed']
    if scn['irr']['model'] == 'hybrid':
        names += ['circumsolar', 'horizon', 'horizon_absorbed']
    for k in names:
        mon.close(y.p[k][p2][live], x.p[k][p1][live], TOL, 'rows-added:' + k,
                  'light changes when rows are added', scale=sc)
    M = []
    from pvfactors.viewfactors import VFCalculator
    for s, q in ((scn, p1), (s2, p2)):
        v = view.fitted(s)
        with sut.code('build_ts_vf_matrix'):
            c = VFCalculator()
            c.fit(v.n)
            F = np.asarray(c.build_ts_vf_matrix(v.arr), float)
        M.append(F[np.ix_(q, q + [-1])])
    ok2 = live[:, None, :] & np.concatenate(
        [live, sel[None, :]])[None, :, :]
    ok2[:, -1] = live          # (and the sky: others hide no more of it)
    # the sky over the last row that was there is not the same
    near = np.array([s.row == R - 2 for s in mine])
    ok2[near, -1] = False
    mon.close(M[1][ok2], M[0][ok2], 1e-7, 'rows-added-views',
              'views change when rows are added')


def raised(mon, scn, base, ok, scale, rng, hit):
    """Ground at another height than the default one (class attribute
    ``y_ground`` of the PV array): everything is higher, nothing changes."""
    h = float(np.round(rng.choice([rng.uniform(.2, 6.),
                                   rng.uniform(-5., -.2)]), 3))
    s1 = scn
    n = len(scn['t']['zen'])
    ids = np.arange(n)
    if rng.random() < .5:
        s1 = copy.deepcopy(scn)
        s1['vf'] = {'faoi_front': gen_faoi(rng), 'faoi_back': gen_faoi(rng),
                    'n_sections': 97}     # (no round angle at a bound)
        base = compare.full_result(s1)
        hit('raised-angles')
    s2 = copy.deepcopy(s1)
    s2['arr']['y_ground'] = h
    sel = hit('raised')
    other = compare.full_result(s2)
    # (coordinates are rounded at their own magnitude, and angles of
    # surfaces that are exactly in line fall on one side or the other)
    tol = TOL * max(1., abs(h)) if s1 is scn else 1e-4
    msg = 'ground at height %s changes the results' % h
    if mon.ok(len(base.surfs) == len(other.surfs), 'raised-surfaces', msg):
        live = (base.L > TINY) & (other.L > TINY) & sel[None, :]
        mon.close(other.C[live], (base.C + [0., h])[live], 1e-9 * max(
            1., abs(h)), 'raised-geometry', msg)
    compare.same(mon, base, other, ids, ids, tol, 'raised', msg, scale,
                 steps_ok=sel, coords=False)
    R = scn['arr']['n_pvrows']
    row = int(rng.integers(0, R))
    a, b = (compare.fast_result(s, row=row) for s in (s1, s2))
    hit('raised-fast')
    compare.same(mon, a, b, ids, ids, tol, 'raised-fast', msg, scale,
                 steps_ok=sel, coords=False)


def _off_axis(scn):
    """Sun not on the plane of the axis (there the side is a convention),
    nor row orientation along the axis."""
    a = scn['arr']['axis_azimuth']
    return np.array([abs(np.sin(np.radians(z - a))) > 1e-6
                     and abs(np.sin(np.radians(s - a))) > 1e-6
                     for z, s in zip(scn['t']['azi'], scn['t']['saz'])])


def _not_flat(scn):
    t = np.array(scn['t']['tilt'])
    return (t > 1e-6) & (t < 180 - 1e-6)


def _o(side):
    return {'front': 'back', 'back': 'front', None: None}[side]


def _flip(s, a):
    if s.kind != 'r':
        return None
    nc = int(a.get('cut', {}).get(str(s.row), {}).get(s.side, 1))
    return nc - 1 - s.seg


def _rev(a):
    out = copy.deepcopy(a)
    if 'cut' in a:
        out['cut'] = {str(a['n_pvrows'] - 1 - int(k)): v
                      for k, v in a['cut'].items()}
    return out


def pair(mon, x, y, kx, ky, sel, scale, rule, names, ground):
    """Match surfaces of x and y by key; a segment has one lit and one shaded
    part. ky maps surfaces of y to keys of x."""
    n = x.L.shape[1]
    for kind in ('r', 'g') if ground else ('r',):
        if kind == 'r':
            dy = {}
            for s in y.surfs:
                if s.kind == 'r':
                    dy[kyy(ky, s) + (s.shaded,)] = s.pos
            for s in x.surfs:
                if s.kind != 'r':
                    continue
                q = dy[kx(s) + (s.shaded,)]
                live = sel & (x.L[s.pos] > TINY)
                mon.close(y.L[q][sel], x.L[s.pos][sel], 1e-8,
                          rule + '-length', s.label)
                for k in names:
                    mon.close(y.p[k][q][live], x.p[k][s.pos][live], TOL,
                              rule + ':' + k, s.label, scale=scale[live])
        else:
            # total over the ground
            gx = [s.pos for s in x.surfs if s.kind == 'g']
            gy = [s.pos for s in y.surfs if s.kind == 'g']
            for k in names:
                tx = np.nansum(np.where(x.L[gx] > TINY, x.L[gx] * x.p[k][gx],
                                        0.), 0)
                ty = np.nansum(np.where(y.L[gy] > TINY, y.L[gy] * y.p[k][gy],
                                        0.), 0)
                mon.close(ty[sel], tx[sel], TOL, rule + '-ground:' + k,
                          'light over the whole ground',
                          scale=200. * scale[sel])
    del n


def kyy(ky, s):
    return tuple(ky(s))


def row_row(mon, s1, s2, sel, rule, R, a):
    """Views between rows are the same in both descriptions."""
    from pvfactors.viewfactors import VFCalculator
    if R < 2:
        return
    M, V = [], []
    for s in (s1, s2):
        v = view.fitted(s)
        with sut.code('build_ts_vf_matrix'):
            c = VFCalculator()
            c.fit(v.n)
            M.append(np.asarray(c.build_ts_vf_matrix(v.arr), float))
        V.append(v)
    key2 = {}
    for s in V[1].surfs:
        if s.kind == 'r':
            key2[(R - 1 - s.row, s.side, _flip(s, _rev(a)), s.shaded)] = s.pos
    pos1 = [s.pos for s in V[0].surfs if s.kind == 'r']
    pos2 = [key2[(s.row, s.side, s.seg, s.shaded)]
            for s in V[0].surfs if s.kind == 'r']
    A = M[0][np.ix_(pos1, pos1)]
    B = M[1][np.ix_(pos2, pos2)]
    live = V[0].L[pos1] > TINY
    ok = live[:, None, :] & live[None, :, :] & sel[None, None, :]
    mon.close(B[ok], A[ok], 1e-7, rule + '-row-views',
              'views between rows differ')


def fast_pairs(mon, scn, s2, s3, sel, R, a, scale):
    """Fast mode of a row whose back faces a neighbor."""
    if R < 2:
        return
    row = R // 2
    b = compare.fast_result(scn, row=row)
    v = view.fitted(scn)
    fac = np.array([v.step(i).geo.nrm[0] for i in range(v.n)])
    # back looks to -nrm; neighbor on that side exists, and the shadows stay
    # inside the modelled ground
    inner = np.where(fac < 0, row + 1 < R, row - 1 >= 0)
    for i in range(v.n):
        g = v.step(i).geo
        k = g.sun[0] / g.sun[1]
        e = np.concatenate([g.e1, g.e2])
        x = e[:, 0] - k * e[:, 1]
        # after mirroring the shadows spread from (R-1)*d
        span = (R - 1) * g.d
        inner[i] &= bool(np.abs(x).max() < 100. and
                         np.abs(span - x).max() < 100.)
    ok = sel & inner
    mon.hit('fast-mirrored', int(ok.sum()))
    for kind, s in (('mirror-fast', s2), ('axis-reversed-fast', s3)):
        r = compare.fast_result(s, row=R - 1 - row)
        key = {(_flip(x, _rev(a)), x.shaded): k
               for k, x in enumerate(r.surfs)}
        for k, x in enumerate(b.surfs):
            q = key[(x.seg, x.shaded)]
            live = ok & (b.L[k] > TINY)
            for nm in b.p:
                mon.close(r.p[nm][q][live], b.p[nm][k][live], TOL,
                          kind + ':' + nm, x.label, scale=scale[live])
