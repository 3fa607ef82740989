"""P15: absorbed light accounts for angle-of-incidence losses of the light
that each surface really sees, from where it sees it."""
import numpy as np
from .. import cases, core, ref, view
from ..scenario import module_number

ID = 'P15'
RULE = ('random and directed full mode simulations with different angle-of-'
        'incidence functions on the two sides and 50 to 6000 integral '
        'sections; every entry of the weighted view factor matrix is compared '
        'with a ray-cast view weighted by the function; non-trivial per '
        'distinct situation of a judged timestep and function kinds')
COUNT = {'quick': 600, 'thorough': 3200}
REQUIRED = {'step': 300, 'flat': 10, 'over': 20, 'shade_front': 30,
            'shade_back': 10, 'left': 50, 'cut': 50, 'entry': 20000,
            'coarse': 10, 'fine': 30, 'without': 20, 'object': 20,
            'views-only': 4, 'light-only': 3, 'separate': 5,
            'sandia': 10}
ASSUMPTIONS = ['the documented integral adds at most one section per end of '
               'each view, which sets the tolerance (pi / sections)',
               'faoi functions are symmetric around the surface normal']
LO = 2e-6
shrink = core.shrink_steps


def corners(tier):
    f = {'kind': 'power', 'c': .95, 'k': 3., 'obj': False}
    b = {'kind': 'linear', 'c': .8, 'k': 3., 'obj': True}
    out = cases.corner_cases(faoi=(f, b), model='hybrid')
    for i, c in enumerate(out):
        c['scn']['vf']['n_sections'] = (1800, 360, 6000)[i % 3]
        c['first'] = i % 2 == 0
    return out + cases.corner_cases(model='isotropic')


def gen(rng, k, tier):
    kw = dict(max_rows=4, max_cut=3, n_steps=(3, 7))
    if k % 8 == 7:
        return cases.random_case(rng, k, tier, raised=True, max_zenith=89.5,
                                 long_every=0, many=(5, 6), **{
                                     x: kw[x] for x in ('max_rows',
                                                        'max_cut')})
    n = int(rng.choice([50, 75, 90, 181, 360, 1800, 1800, 1801, 6000]))
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89.5, long_every=0,
                          many=(5, 6), faoi=True, n_sections=n, **{
                              x: kw[x] for x in ('max_rows', 'max_cut')})
    c['first'] = bool(rng.random() < .5)
    if rng.random() < .3:       # functions made for modules of pvlib
        for part in ('irr', 'vf'):
            for s in ('faoi_front', 'faoi_back'):
                if c['scn'][part].get(s) is not None:
                    c['scn'][part][s] = {
                        'kind': 'sandia', 'c': 1., 'obj': False,
                        'k': module_number(rng)}
    return c


def judge(case, mon):
    from ..scenario import make_faoi
    scn = case['scn']
    v = view.full(scn)
    irr = scn['irr']
    comps = ['direct'] + (['circumsolar', 'horizon']
                          if irr['model'] == 'hybrid' else [])
    F = np.asarray(v.arr.ts_vf_matrix, float)
    A = np.asarray(v.arr.ts_vf_aoi_matrix, float)
    q0, qabs, qinc = v.param('q0'), v.param('qabs'), v.param('qinc')
    comp = {c: v.param(c + '_absorbed') for c in comps}
    absorbed = sum(comp.values())
    light = sum(v.param(c) for c in comps)
    ns = v.ns
    vfk = scn.get('vf') or {}
    with_fn = vfk.get('faoi_front') is not None
    fa = {}
    mon.hit('views-only', with_fn and irr.get('faoi_front') is None)
    mon.hit('light-only', not with_fn and irr.get('faoi_front') is not None)
    mon.hit('separate', with_fn and irr.get('faoi_front') is not None
            and irr['faoi_front'] != vfk['faoi_front'])
    if with_fn:
        fa = {s: make_faoi(vfk['faoi_' + s]) for s in ('front', 'back')}
        fa = {s: getattr(f, 'faoi', f) for s, f in fa.items()}
        n_sec = vfk['n_sections']
        mon.hit('coarse', n_sec < 500)
        mon.hit('fine', n_sec > 1000)
        mon.hit('sandia', vfk['faoi_front']['kind'] == 'sandia')
        mon.hit('object', vfk['faoi_front']['obj']
                or vfk['faoi_back']['obj'])
    else:
        mon.hit('without')
    for i in range(v.n):
        st = v.step(i)
        if not st.usable:
            mon.ev('skipped-irregular')
            continue
        tag = st.classes(mon)
        mon.sig(tag, vfk['faoi_front']['kind'] + vfk['faoi_back']['kind']
                if with_fn else '-')
        sc = v.scale[i]
        g, sky = st.geo, st.sky
        row_cuts, gnd_x, gmap, rmap = ref.target_maps(g, st.pats)
        L = {p.pos: p.length for p in st.pats}
        ab, inp = st.absorption(), st.inputs()
        rad = np.concatenate([np.where(v.L[:, i] > ref.TINY, q0[:, i], 0.),
                              [sky.lum_iso]])
        for p in st.pats:
            lab = v.surfs[p.pos].label
            e = inp[p.pos]
            if min(e['sh'], 1. - e['sh']) * p.length < 1e-5:
                for c in comps:
                    k = ab['g' if p.kind == 'g' else p.side][c]
                    mon.close(comp[c][p.pos, i], k * e[c], 1e-7,
                              'absorbed:' + c, lab, scale=sc, step=i)
            if not with_fn:
                rho = sky.alb if p.kind == 'g' else sky.rho[p.side]
                mon.close(A[p.pos, :, i], (1. - rho) * F[p.pos, :, i], 1e-12,
                          'diffuse-losses', lab, step=i)
                want = (1. - rho) * qinc[p.pos, i]
                if irr.get('faoi_front') is not None:
                    want += absorbed[p.pos, i] - (1. - rho) \
                        * light[p.pos, i]
                mon.close(qabs[p.pos, i], want, 1e-8,
                          'absorbed-diffuse', lab, scale=sc, step=i)
                continue
            if p.kind == 'g':
                mon.close(A[p.pos, :, i], F[p.pos, :, i], 1e-12,
                          'ground-views', lab, step=i)
                continue
            faoi = fa[p.side]
            s = .5 * (p.lo + p.hi)
            codes = ref.faoi_view(g, p.row, 1. if p.side == 'front' else -1.,
                                  s, row_cuts, gnd_x, faoi)
            want = np.zeros(ns + 1)
            for q, val in ref.to_pos(codes, p.side, gmap, rmap, ns).items():
                want[q] += val
            # ground beyond +-100 m below a neighbor counts as nothing
            lost = _beyond(g, p, s, faoi)
            c = vfk['faoi_' + p.side]['c']
            up = np.pi / n_sec * c * 1.02 + LO
            lo = 3. / n_sec ** 2 * 10. + LO
            got = A[p.pos, :, i]
            real = np.array([q in L or q == ns for q in range(ns + 1)])
            dev = got - want
            slack = np.zeros(ns + 1)
            slack[ns] = lost
            mon.hit('entry', int(real.sum()))
            mon.leq(dev[real], up, 1e-12, 'weighted-view-high', lab, step=i,
                    n_sections=n_sec)
            mon.leq(-dev[real] - slack[real], lo, 1e-12, 'weighted-view-low',
                    lab, step=i, n_sections=n_sec)
            # nothing is absorbed from what is not seen
            blind = real & (want == 0.)
            mon.close(got[blind], 0., up, 'unseen', lab, step=i)
            # absorbed = weighted views of the radiosities + components
            mon.close(qabs[p.pos, i],
                      float(got[real] @ rad[real]) + absorbed[p.pos, i],
                      1e-8, 'absorbed-sum', lab, scale=sc, step=i)
            # (the sky itself is darker than black when the diffuse light
            # given exceeds what the Perez model was made for)
            if sky.lum_iso >= 0.:
                mon.leq(0., qabs[p.pos, i], 1e-9, 'absorbed-positive', lab,
                        step=i)


def _beyond(g, p, s, faoi):
    """Weighted view of the ground beyond +-100 m."""
    rc = np.array([0., g.w])
    gx = np.array([-ref.X_GROUND, ref.X_GROUND])
    pt = (g.e1[p.row] + s * g.u)[None, :]
    nsign = 1. if p.side == 'front' else -1.
    ang, tgt = ref.wedge_view(g, pt, nsign, p.row, rc, gx, infinite=True)
    val = .5 * (np.cos(ang[0, :-1]) - np.cos(ang[0, 1:]))
    m = float(val[tgt[0] == -2].sum())
    return m * float(np.max(faoi(np.linspace(1., 179., 50))))
