"""P08: each surface receives the right direct, circumsolar and horizon
light, reflectivity and unreflected total."""
import numpy as np
from .. import cases, core, sut, view

ID = 'P08'
RULE = ('random and directed fitted engines (both irradiance models, with '
        'and without angle-of-incidence functions, transparency, spacing, '
        'horizon band); non-trivial per distinct situation of a judged '
        'timestep, model and options')
COUNT = {'quick': 1800, 'thorough': 12000}
REQUIRED = {'step': 1500, 'flat': 20, 'over': 40, 'shade_front': 100,
            'shade_back': 40, 'left': 100, 'cut': 100, 'through': 200,
            'faoi': 300, 'horizon-shaded': 300, 'ghi': 300, 'low': 50,
            'vectors': 300, 'horizon-share': 1000}
shrink = core.shrink_steps
TOL = 1e-7


def corners(tier):
    out = cases.corner_cases()
    f = {'kind': 'power', 'c': .95, 'k': 4., 'obj': False}
    b = {'kind': 'sapmlike', 'c': .9, 'k': 3., 'obj': True}
    return out + cases.corner_cases(faoi=(f, b))


def gen(rng, k, tier):
    return cases.random_case(rng, k, tier, raised=True, max_zenith=89.7,
                             faoi=bool(k % 3 == 1))


def judge(case, mon):
    scn = case['scn']
    v = view.engine_fitted(scn)
    irr = scn['irr']
    hyb = irr['model'] == 'hybrid'
    comps = ['direct'] + (['circumsolar', 'horizon'] if hyb else [])
    p = {k: v.param(k) for k in comps + [c + '_absorbed' for c in comps]
         + ['rho', 'inv_rho', 'total_perez']}
    faoi = irr.get('faoi_front') is not None
    model_vectors(v, comps, p, mon)
    if hyb:
        band(v, p, mon)
    for i in range(v.n):
        st = v.step(i)
        if not st.usable:
            mon.ev('skipped-irregular')
            continue
        g, sky = st.geo, st.sky
        mon.sig(irr['model'], st.classes(mon), 'f' if faoi else '',
                't' if sky.through else '')
        mon.hit('through', sky.through > 0)
        mon.hit('faoi', faoi)
        mon.hit('ghi', 'ghi' in scn['t'])
        mon.hit('low', scn['t']['zen'][i] > 85)
        sc = v.scale[i]
        inp = st.inputs()
        tot_front = sky.perez_total_front()
        ab = st.absorption()
        for q in st.pats:
            e = inp[q.pos]
            lab = v.surfs[q.pos].label
            if e['sh'] > 1e-5 and e['sh'] < 1 - 1e-5 and \
                    q.length * min(e['sh'], 1 - e['sh']) > 1e-5:
                mon.fail('part-shaded', 'surface both lit and shaded: ' + lab,
                         step=i, fraction=e['sh'])
                continue
            for c in comps:
                mon.close(p[c][q.pos, i], e[c], TOL, c, lab, scale=sc, step=i)
                if c == 'horizon' and q.side == 'back' and \
                        e['horizon'] < sky.hor - 1e-3:
                    mon.hit('horizon-shaded')
                k = ab['g' if q.kind == 'g' else q.side][c]
                mon.close(p[c + '_absorbed'][q.pos, i], k * e[c], TOL,
                          c + '-absorbed', lab, scale=sc, step=i)
            mon.close(p['rho'][q.pos, i], e['rho'], 1e-12, 'reflectivity',
                      lab, step=i)
            if e['rho'] > 0.:    # (there is no inverse for black surfaces)
                mon.close(p['inv_rho'][q.pos, i] * e['rho'], 1., 1e-12,
                          'inverse-reflectivity', lab, step=i)
            # transposed total assumed by the fast mode
            sh = e['sh'] > .5
            if q.kind == 'g':
                want = (sky.dhi - (1 - sky.through) * sky.circ_gnd
                        + sky.through * sky.dir_gnd) if sh else sky.ghi
            elif q.side == 'front':
                lost = sky.direct['front'] + (sky.circ['front'] if hyb else 0.)
                want = tot_front - (lost * (1. - sky.through) if sh else 0.)
            else:
                want = 0.
            mon.close(p['total_perez'][q.pos, i], want, TOL, 'known-total',
                      lab, scale=sc, step=i)


def model_vectors(v, comps, p, mon):
    """What the model hands to the engine is what the surfaces have."""
    m, arr = v.engine.irradiance, v.arr
    with sut.code('modeling vectors of the irradiance model'):
        irr, rho, inv, tot = m.get_full_ts_modeling_vectors(arr)
        parts = [np.asarray(m.get_summed_components(arr, absorbed=x), float)
                 for x in (True, False)]
        order = list(arr.all_ts_surfaces)
        pos = {id(s.ts): k for k, s in enumerate(v.surfs)}
        known = [k for k, ts in enumerate(order) if id(ts) in pos]
        at = [pos[id(order[k])] for k in known]
        sky = np.asarray(m.sky_luminance, float)
    mon.ok(len(irr) == len(order) + 1 and len(known) == len(order),
           'vectors', 'one value per surface and one for the sky')
    if len(irr) != len(order) + 1:
        return
    want = sum(p[c] for c in comps)[at]
    ab = sum(p[c + '_absorbed'] for c in comps)[at]
    live = v.L[at] > 1e-6
    sc = np.broadcast_to(v.scale, want.shape)[live]
    for nm, got, ref in (('irradiance', irr[:-1], want),
                         ('incident', parts[1], want),
                         ('absorbed', parts[0], ab),
                         ('totals', tot[:-1], p['total_perez'][at])):
        mon.close(np.asarray(got, float)[known][live], ref[live], 1e-10,
                  'vectors:' + nm, 'modeling vectors', scale=sc)
    for nm, got, ref in (('rho', rho[:-1], p['rho'][at]),
                         ('inverse rho', inv[:-1], p['inv_rho'][at])):
        ref = np.asarray(ref, float)[live]
        some = np.isfinite(ref) & (ref != 0.)
        got = np.asarray(got, float)[known][live]
        mon.close(got[some] / ref[some], 1., 1e-12,
                  'vectors:' + nm, 'modeling vectors')
        mon.ok(nm != 'rho' or not np.any(got[~some]), 'vectors:' + nm,
               'modeling vectors of black surfaces')
    mon.close(np.asarray(irr[-1], float), sky, 1e-10, 'vectors:sky',
              'light of the sky', scale=v.scale)
    for nm, pick in (('gnd_shaded', ('g', True)), ('gnd_illum', ('g', False)),
                     ('pvrow_shaded', ('front', True)),
                     ('pvrow_illum', ('front', False))):
        with sut.code(nm):
            x = np.broadcast_to(np.asarray(getattr(m, nm), float), v.n)
        for k, q in enumerate(v.surfs):
            if ('g' if q.kind == 'g' else q.side, bool(q.shaded)) == pick:
                mon.close(x, p['total_perez'][k], 1e-10, 'totals:' + nm,
                          q.label, scale=v.scale)
    mon.hit('vectors')


def band(v, p, mon):
    """Horizon light without and with shading, and the shaded share."""
    live = v.L > 1e-6
    for k, q in enumerate(v.surfs):
        if q.kind == 'g' or q.side != 'back':
            continue
        with sut.code('horizon parameters'):
            free = np.asarray(q.ts.get_param('horizon_unshaded'), float)
            pct = np.asarray(q.ts.get_param('horizon_shd_pct'), float)
        m = live[k]
        free, pct = (np.broadcast_to(x, m.shape)[m] for x in (free, pct))
        mon.close(free * (1. - pct / 100.), p['horizon'][k][m], TOL,
                  'horizon-share', q.label, scale=v.scale[m])
        mon.leq(pct, 100., 1e-9, 'horizon-share-range', q.label)
        mon.leq(-pct, 0., 1e-9, 'horizon-share-range', q.label)
        for i in np.where(m)[0]:
            st = v.step(int(i))
            if st.usable:
                j = int(np.sum(m[:i]))
                mon.close(free[j], st.sky.hor, TOL, 'horizon-unshaded',
                          q.label, scale=v.scale[i], step=int(i))
        mon.hit('horizon-share', int(m.sum()))
