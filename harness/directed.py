"""Directed scenarios: situations random sampling reaches rarely. All are in
the documented domain (sun above the horizon, some light, albedo and
reflectivities strictly between 0 and 1, rows above the ground)."""
import copy


def _t(n=None, **kw):
    base = dict(zen=30., azi=120., tilt=20., saz=90., dni=800., dhi=120.,
                alb=.2)
    lens = [len(v) for v in kw.values() if isinstance(v, list)]
    n = n or (max(lens) if lens else 1)
    out = {}
    for k, v in base.items():
        v = kw.get(k, v)
        out[k] = [float(x) for x in v] if isinstance(v, list) else [v] * n
    out['ts_min'] = kw.get('ts_min', [720 + 1440 * 7 * i for i in range(n)])
    out['style'] = ['directed'] * n
    if 'ghi' in kw:
        out['ghi'] = kw['ghi']
    return out


def _arr(n=3, h=1.5, w=1., gcr=.4, axis=0., cut=None):
    a = {'n_pvrows': n, 'pvrow_height': h, 'pvrow_width': w,
         'axis_azimuth': axis, 'gcr': gcr}
    if cut:
        a['cut'] = cut
    return a


CUT = {'0': {'front': 3, 'back': 2}, '1': {'front': 2, 'back': 4},
       '2': {'back': 3}}


def _base():
    out = []

    def add(arr, t, **irr):
        p = {'rho_front': .03, 'rho_back': .07}
        p.update(irr)
        out.append((arr, t, p))

    # single rows, every orientation
    add(_arr(1, cut={'0': {'front': 2, 'back': 3}}),
        _t(tilt=[0, 0, 20, 90, 120, 160, 180, 180, 45],
           saz=[90, 270, 90, 270, 90, 270, 90, 270, 90],
           azi=[100, 100, 260, 90, 280, 100, 60, 60, 90],
           zen=[0, 40, 60, 80, 30, 50, 20, 20, 85]))
    # flat rows
    add(_arr(3, cut=CUT), _t(tilt=0., saz=[90, 270, 90, 270],
                             zen=[0, 30, 80, 89], azi=[90, 90, 270, 271]))
    # facing straight down
    add(_arr(3, cut=CUT), _t(tilt=180., saz=[90, 270, 90, 270],
                             zen=[10, 30, 80, 60], azi=[90, 90, 270, 95]))
    # vertical bifacial
    add(_arr(4, gcr=.3), _t(tilt=90., saz=[90, 90, 270, 270],
                            zen=[60, 85, 60, 20], azi=[85, 275, 265, 100]))
    # mutual shading, both directions, front and back, with cuts
    add(_arr(3, gcr=.6, cut=CUT),
        _t(tilt=[40, 40, 30, 60, 60, 10, 30],
           saz=[90, 270, 90, 90, 270, 90, 270],
           zen=[75, 75, 82, 70, 70, 86, 65],
           azi=[90, 270, 100, 270, 90, 80, 265]))
    # back side shading with sun behind
    add(_arr(4, gcr=.7, cut={'1': {'back': 4}, '2': {'back': 2, 'front': 3}}),
        _t(tilt=[50, 60, 70, 80], saz=[90, 270, 90, 270],
           zen=[75, 80, 70, 85], azi=[270, 90, 250, 100]),
        module_transparency=.2, module_spacing_ratio=.1)
    # very low sun: shadows leave the modelled ground
    add(_arr(3, h=2.5, w=2.), _t(zen=[88.5, 89., 89.4, 89.4],
                                 azi=[90, 270, 90, 270],
                                 tilt=[30, 30, 55, 55],
                                 saz=[90, 270, 270, 90]))
    # diffuse only, direct only, in one series
    add(_arr(2, cut={'1': {'back': 2}}),
        _t(dni=[0, 900, 0, 5.], dhi=[100, 0, 300, 1.], tilt=[20, 20, 70, 0]))
    # sun along the axis, sun at the zenith
    add(_arr(3), _t(azi=[0, 180, 0, 180, 33], zen=[40, 60, 80, 20, 0],
                    tilt=[20, 30, 50, 0, 0]))
    # duplicated timestamps while the sun is behind the rows
    add(_arr(3, gcr=.5), _t(azi=[270, 270, 90, 270], tilt=[60, 40, 50, 60],
                            zen=[70, 60, 60, 70], ts_min=[600, 600, 600, 600]))
    # one timestep
    add(_arr(3, cut={'2': {'front': 2, 'back': 2}}, gcr=.5),
        _t(zen=[70.], azi=[100.], tilt=[35.]))
    # zenith between 85 and 90, front and back
    add(_arr(2), _t(zen=[85.5, 87, 89, 85.5, 87, 89],
                    azi=[90, 90, 90, 270, 270, 270], tilt=40.))
    # given GHI, varying albedo, non default azimuth frame
    add(_arr(4, axis=30., gcr=.45),
        _t(tilt=[10, 20, 30, 40], saz=[120, 300, 120, 300], azi=[150, 200, 90,
                                                                250],
           alb=[.1, .5, .9, .3], ghi=[700., 800., 820., 750.]))
    # many rows, cuts on the last only
    add(_arr(8, w=2., gcr=.35, cut={'7': {'front': 4, 'back': 4}}),
        _t(tilt=[25, 45, 60], saz=[90, 270, 90], zen=[50, 78, 80],
           azi=[110, 260, 280]))
    # nearly touching rows
    add(_arr(3, gcr=.97), _t(tilt=[2, 20, 45, 85], zen=[20, 60, 70, 75],
                             azi=[100, 90, 90, 90]))
    # rows close to the ground, steep
    add(_arr(3, h=1.02, w=2., gcr=.5),
        _t(tilt=[60, 89, 90, 75], saz=[90, 90, 270, 270],
           zen=[60, 50, 70, 75], azi=[110, 95, 265, 90]))
    # almost straight down: the row plane meets the ground beyond +-100 m
    add(_arr(2, h=6., w=3., gcr=.3, cut={'0': {'back': 2},
                                         '1': {'front': 2, 'back': 3}}),
        _t(tilt=[177.5, 177.5, 179.2, 179.2, 180.], saz=[90, 270, 90, 270, 90],
           zen=[30, 30, 50, 50, 40], azi=[80, 280, 120, 240, 100],
           dni=[400.] * 5, dhi=[250.] * 5))
    # azimuths outside 0..360
    add(_arr(2, axis=0.), _t(saz=[450., -90., -270., 630.],
                             azi=[-250., 480., 100., 260.], tilt=30.))
    return out


def directed(model=None, faoi=None, n_sections=1800):
    """Directed scenarios, for one or both irradiance models."""
    out = []
    for m in ([model] if model else ['hybrid', 'isotropic']):
        for arr, t, p in _base():
            irr = dict(p, model=m)
            scn = {'arr': copy.deepcopy(arr), 't': copy.deepcopy(t),
                   'irr': irr, 'vf': {}}
            if faoi:
                irr['faoi_front'], irr['faoi_back'] = faoi
                scn['vf'] = {'faoi_front': faoi[0], 'faoi_back': faoi[1],
                             'n_sections': n_sections}
            out.append(scn)
    return out


def long_scenario(rng, n=400, **kw):
    """Long timeseries on a small array."""
    from .scenario import gen_scenario
    kw.setdefault('max_rows', 3)
    kw.setdefault('max_cut', 2)
    return gen_scenario(rng, n_steps=(n, n), **kw)
