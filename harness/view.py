"""What a monitor sees of an execution: the code's array at every timestep,
next to the reference model of the same timestep (built lazily)."""
import numpy as np
from . import ref, sut
from .scenario import make_faoi


class View(object):
    def __init__(self, scn, arr, engine=None):
        self.scn, self.arr, self.engine = scn, arr, engine
        with sut.code('reading the array'):
            self.surfs = sut.all_surfs(arr)
            self.n = len(scn['t']['zen'])
            self.C = np.stack([sut.coords(s.ts, self.n)
                               for s in self.surfs])      # (S, n, 2, 2)
        # heights are judged from the ground
        self.yg = float(scn['arr'].get('y_ground') or 0.)
        self.C[..., 1] -= self.yg
        self.L = sut.seg_len(self.C)                      # (S, n)
        self.ns = len(self.surfs)
        self.scale = np.array(scn['t']['dni']) + np.array(scn['t']['dhi']) + 1.

    def param(self, name):
        """(S, n) values of a surface parameter."""
        with sut.code('get_param(%s)' % name):
            return np.stack([np.broadcast_to(np.asarray(
                s.ts.get_param(name), float), self.n) for s in self.surfs])

    def step(self, i):
        return Step(self, i)

    def real(self):
        """(S, n) mask of surfaces that are not points."""
        return self.L > ref.TINY


class Step(object):
    def __init__(self, view, i):
        self.v, self.i = view, i
        t = view.scn['t']
        self.geo = ref.Geo(view.scn['arr'],
                           *(t[k][i] for k in ('zen', 'azi', 'tilt', 'saz')))
        self.sky = ref.Sky(view.scn, i)
        self.pats = ref.patches(self.geo, view.surfs, view.C[:, i])
        self._F = self._inp = None

    @property
    def usable(self):
        """Sun not exactly in the plane of the rows (singular), and Perez
        diffuse irradiance not clipped to zero by pvlib."""
        return not self.sky.grazing and self.sky.regular

    def F(self):
        if self._F is None:
            self._F = ref.vf_matrix(self.geo, self.pats, self.v.ns)
        return self._F

    def inputs(self):
        if self._inp is None:
            self._inp = ref.patch_inputs(self.geo, self.sky, self.pats)
        return self._inp

    def absorption(self):
        """Fraction of direct, circumsolar and horizon light absorbed, per
        side ('g' for the ground): the angle-of-incidence function of that
        side, at the angle between the light and the surface, or one minus
        reflectivity."""
        irr, sky = self.v.scn['irr'], self.sky
        comps = ('direct', 'circumsolar', 'horizon')
        out = {'g': dict.fromkeys(comps, 1. - sky.alb)}
        aoi = {'front': sky.aoi_f, 'back': 180. - sky.aoi_f}
        for s in ('front', 'back'):
            if irr.get('faoi_front') is None:
                out[s] = dict.fromkeys(comps, 1. - sky.rho[s])
                continue
            f = make_faoi(irr['faoi_' + s])
            f = getattr(f, 'faoi', f)
            d = float(np.asarray(f(np.array([abs(90. - aoi[s])])))[0])
            h = float(np.asarray(f(np.array([sky.tilt])))[0])
            out[s] = {'direct': d, 'circumsolar': d, 'horizon': h}
        return out

    def solution(self):
        return ref.solve(self.F(), self.inputs(), self.v.ns,
                         self.sky.lum_iso)

    def classes(self, mon, prefix=''):
        """Situations observed, according to the reference model."""
        g = self.geo
        tilt = self.v.scn['t']['tilt'][self.i]
        mon.hit(prefix + 'step')
        mon.hit(prefix + ('sun_front' if g.cosf > 0 else 'sun_back'))
        tag = []
        if tilt in (0., 180.):
            mon.hit(prefix + 'flat')
            tag.append('flat')
        elif tilt == 90.:
            mon.hit(prefix + 'vertical')
            tag.append('vertical')
        elif tilt > 90.:
            mon.hit(prefix + 'over')
            tag.append('over')
        sh = [j for j in range(g.n)
              if ref.measure(g.shaded_interval(j)) > ref.TINY]
        if sh:
            mon.hit(prefix + ('shade_front' if g.cosf > 0 else 'shade_back'))
            tag.append('sh%d' % len(sh))
        if 'cut' in self.v.scn['arr']:
            mon.hit(prefix + 'cut')
            tag.append('cut')
        if g.n == 1:
            mon.hit(prefix + 'single_row')
        if g.nrm[0] < 0:
            mon.hit(prefix + 'left')
        tag += ['F' if g.cosf > 0 else 'B', 'L' if g.nrm[0] < 0 else 'R',
                'n%d' % g.n, 'z%d' % int(self.v.scn['t']['zen'][self.i] // 10),
                't%d' % int(tilt // 15)]
        gs = g.ground_shadows()
        tag.append('gs%d' % len(gs))
        if len(gs) < g.n:
            mon.hit(prefix + 'ground_overlap')
        return '/'.join(tag)


def fitted(scn):
    return View(scn, sut.fit_array(scn))


def full(scn):
    eng = sut.run_full(scn)
    return View(scn, eng.pvarray, eng)


def engine_fitted(scn):
    eng = sut.fit_engine(scn)
    return View(scn, eng.pvarray, eng)
