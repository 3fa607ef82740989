"""Independent reference model of the simulated physics.

Nothing here imports pvfactors. Everything is brute force: 2D ray casting for
shadows and view factors, Perez coefficients applied literally, one dense
radiosity solve per timestep."""
import numpy as np
from pvlib import atmosphere, irradiance as pvirr
import pandas as pd

X_GROUND = 100.
KAPPA = 1.041


# ---------------------------------------------------------------- geometry
class Geo(object):
    """Geometry of one timestep, derived from 3D vectors."""

    def __init__(self, arr, zen, azi, tilt, saz):
        ax = arr['axis_azimuth']
        self.n = arr['n_pvrows']
        self.w = arr['pvrow_width']
        self.h = arr['pvrow_height']
        self.d = self.w / arr['gcr']
        d2r = np.radians
        # x axis of the cross-section points to azimuth axis + 90
        self.sun = np.array([np.sin(d2r(zen)) * np.cos(d2r(azi - ax - 90.)),
                             np.cos(d2r(zen))])
        self.nrm = np.array([np.sin(d2r(tilt)) * np.cos(d2r(saz - ax - 90.)),
                             np.cos(d2r(tilt))])
        # along-row direction; rotating the front normal clockwise, so that
        # for upward facing rows it points to the right
        self.u = np.array([self.nrm[1], -self.nrm[0]])
        self.cen = np.array([[i * self.d, self.h] for i in range(self.n)])
        self.e1 = self.cen - self.u * self.w / 2.
        self.e2 = self.cen + self.u * self.w / 2.
        self.cosf = float(self.nrm @ self.sun)     # >0: sun on front

    def shaded_interval(self, i):
        """Union of the parts of row i hidden from the sun by other rows, as
        positions along u in [0, w]; [] when none."""
        perp = np.array([-self.sun[1], self.sun[0]])
        a, b = perp @ self.e1[i], perp @ self.e2[i]
        if abs(b - a) < 1e-14:
            return []
        out = []
        lit = self.nrm if self.cosf > 0 else -self.nrm
        for j in range(self.n):
            if j == i:
                continue
            # j is sunward of i when it lies on the sunlit side of i
            if lit @ (self.cen[j] - self.cen[i]) <= 0:
                continue
            lo, hi = sorted((perp @ self.e1[j], perp @ self.e2[j]))
            s = sorted(((lo - a) / (b - a), (hi - a) / (b - a)))
            s0, s1 = max(0., s[0]), min(1., s[1])
            if s1 > s0:
                out.append((s0 * self.w, s1 * self.w))
        return merge(out)

    def ground_shadows(self):
        """Union of the shadows of all rows on the ground."""
        k = self.sun[0] / self.sun[1]
        out = []
        for i in range(self.n):
            x = sorted((self.e1[i][0] - k * self.e1[i][1],
                        self.e2[i][0] - k * self.e2[i][1]))
            lo, hi = np.clip(x, -X_GROUND, X_GROUND)
            if hi > lo:
                out.append((lo, hi))
        return merge(out)


def merge(iv, tol=0.):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + tol:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return out


def measure(iv):
    return sum(b - a for a, b in iv)


def overlap(iv, lo, hi):
    return sum(max(0., min(b, hi) - max(a, lo)) for a, b in iv)


def symdiff(a, b):
    """Length of the symmetric difference of two unions of intervals."""
    pts = sorted({p for iv in (a, b) for q in iv for p in q})
    tot = 0.
    for lo, hi in zip(pts[:-1], pts[1:]):
        m = .5 * (lo + hi)
        ina = any(x <= m <= y for x, y in a)
        inb = any(x <= m <= y for x, y in b)
        if ina != inb:
            tot += hi - lo
    return tot


# ------------------------------------------------------------ view factors
_GL = {}


def _gl(n):
    if n not in _GL:
        x, w = np.polynomial.legendre.leggauss(n)
        _GL[n] = (.5 * (x + 1), .5 * w)
    return _GL[n]


def wedge_view(geo, p, nsign, row, row_cuts, gnd_x, x_max=X_GROUND,
               infinite=False):
    """For points p (M,2) on row ``row`` looking along nsign*normal: directions
    (elementary angular intervals), the target seen in each, and bounding
    angles. Angles measured from the tangent tau = rot(-90) of the looking
    normal, in (0, pi).

    Returns (ang (M,K+1), tgt (M,K)) with target codes: -1 sky,
    ground interval k -> k, row j strip s -> 10000*(j+1)+s."""
    m = nsign * geo.nrm
    tau = np.array([m[1], -m[0]])
    keys = []
    for j in range(geo.n):
        if j == row:
            continue
        cuts = row_cuts
        keys.append(geo.e1[j][None, :] + np.outer(cuts, geo.u))
    g = np.stack([gnd_x, np.zeros_like(gnd_x)], 1)
    keys.append(g)
    keys = np.concatenate(keys, 0)
    v = keys[None, :, :] - p[:, None, :]
    cn, ct = v @ m, v @ tau
    ang = np.arctan2(cn, ct)
    # points behind: clamp to the boundary of the half plane
    ang = np.where(cn <= 0, np.where(ct >= 0, 0., np.pi), ang)
    # horizontal directions as well (ground seen at infinity vs sky)
    hor = [np.arctan2(np.array([s, 0.]) @ m, np.array([s, 0.]) @ tau)
           for s in (1., -1.)]
    hor = [min(max(a, 0.), np.pi) if a >= 0 else (0. if a > -np.pi / 2
                                                 else np.pi) for a in hor]
    M = p.shape[0]
    ang = np.concatenate([ang, np.zeros((M, 1)), np.full((M, 1), np.pi),
                          np.tile(hor, (M, 1))], 1)
    ang.sort(axis=1)
    mid = .5 * (ang[:, 1:] + ang[:, :-1])
    dx = np.cos(mid) * tau[0] + np.sin(mid) * m[0]
    dy = np.cos(mid) * tau[1] + np.sin(mid) * m[1]
    # cast
    best = np.full(mid.shape, np.inf)
    tgt = np.full(mid.shape, -1, dtype=int)
    down = dy < 0
    with np.errstate(all='ignore'):
        tg = np.where(down, -p[:, 1][:, None] / dy, np.inf)
        xg = p[:, 0][:, None] + tg * dx
        k = np.searchsorted(gnd_x, xg) - 1
        ok = down & (k >= 0) & (k < len(gnd_x) - 1)
        tgt = np.where(ok, k, tgt)
        if infinite:
            tgt = np.where(down & ~ok, -2, tgt)   # ground beyond +-100 m
        best = np.where(down, tg, best)   # ground plane beyond +-100: "sky"
        for j in range(geo.n):
            if j == row:
                continue
            # solve p + t*dir = e1 + s*u
            den = dx * geo.u[1] - dy * geo.u[0]
            qx = geo.e1[j][0] - p[:, 0][:, None]
            qy = geo.e1[j][1] - p[:, 1][:, None]
            t = (qx * geo.u[1] - qy * geo.u[0]) / den
            s = (qx * dy - qy * dx) / den
            hit = (t > 1e-12) & (s >= 0) & (s <= geo.w) & (t < best)
            ks = np.clip(np.searchsorted(row_cuts, s) - 1, 0,
                         len(row_cuts) - 2)
            tgt = np.where(hit, 10000 * (j + 1) + ks, tgt)
            best = np.where(hit, t, best)
    return ang, tgt


def _breaks(geo, row, s0, s1, row_cuts, gnd_x):
    """Positions along row where the view changes analytically: lines through
    a key point and an occluder end crossing the row."""
    occ = []
    keys = [np.stack([gnd_x, np.zeros_like(gnd_x)], 1)]
    for j in (row - 1, row + 1):
        if 0 <= j < geo.n:
            occ += [geo.e1[j], geo.e2[j]]
            keys.append(geo.e1[j][None, :] + np.outer(row_cuts, geo.u))
    out = [s0, s1]
    L = s1 - s0
    for f in (3e-4, 1e-3, 3e-3, 1e-2, .03, .1, .3, .7, .9, .97, .99,
              .997, .999, .9997):
        out.append(s0 + f * L)
    if occ:
        K = np.concatenate(keys, 0)
        for o in occ:
            v = o[None, :] - K
            qx = geo.e1[row][0] - K[:, 0]
            qy = geo.e1[row][1] - K[:, 1]
            with np.errstate(all='ignore'):
                # K + a v = e1 + s u
                s = -(qy * v[:, 0] - qx * v[:, 1]) / (
                    v[:, 0] * geo.u[1] - v[:, 1] * geo.u[0])
            s = s[np.isfinite(s)]
            out += list(s[(s > s0) & (s < s1)])
    b = np.unique(np.array(out))
    keep = np.concatenate([[True], np.diff(b) > 1e-12])
    b = b[keep]
    b[-1] = s1
    return b


def vf_from_row_strip(geo, row, nsign, s0, s1, row_cuts, gnd_x, order=6,
                      infinite=False):
    """View factors from the strip [s0, s1] of a row (looking along
    nsign*normal): dict target code -> value."""
    b = _breaks(geo, row, s0, s1, row_cuts, gnd_x)
    if min(geo.e1[row][1], geo.e2[row][1]) < .3 * geo.w:      # views change fast close to the ground
        order = max(order, 16)
    x, w = _gl(order)
    lens = np.diff(b)
    s = (b[:-1, None] + lens[:, None] * x[None, :]).ravel()
    wt = (lens[:, None] * w[None, :]).ravel() / (s1 - s0)
    p = geo.e1[row][None, :] + s[:, None] * geo.u[None, :]
    ang, tgt = wedge_view(geo, p, nsign, row, row_cuts, gnd_x,
                          infinite=infinite)
    val = .5 * (np.cos(ang[:, :-1]) - np.cos(ang[:, 1:])) * wt[:, None]
    codes, inv = np.unique(tgt, return_inverse=True)
    tot = np.bincount(inv.ravel(), weights=val.ravel(), minlength=len(codes))
    return dict(zip(codes.tolist(), tot.tolist()))


def faoi_view(geo, row, nsign, s, row_cuts, gnd_x, faoi, n_quad=4000):
    """AOI weighted view from the point at position s: dict target -> value
    (continuous integral of faoi over the visible wedge)."""
    p = (geo.e1[row] + s * geo.u)[None, :]
    ang, tgt = wedge_view(geo, p, nsign, row, row_cuts, gnd_x)
    # cumulative integral of faoi(theta) * sin(theta)/2 on a fine grid
    th = np.linspace(0, np.pi, n_quad + 1)
    f = faoi(np.degrees(.5 * (th[1:] + th[:-1])))
    cum = np.concatenate([[0.], np.cumsum(
        f * .5 * (np.cos(th[:-1]) - np.cos(th[1:])))])
    c = np.interp(ang[0], th, cum)
    out = {}
    for k, t in enumerate(tgt[0]):
        out[int(t)] = out.get(int(t), 0.) + float(c[k + 1] - c[k])
    return out


# -------------------------------------------------------------- irradiance
_F1C, _F2C = pvirr._get_perez_coefficients('allsitescomposite1990')


def perez(doy, zen, dni, dhi):
    """Perez (1990) brightness coefficients (F1, F2)."""
    if dhi == 0:
        return 0., 0.
    am = float(atmosphere.get_relative_airmass(zen))
    et = float(np.asarray(pvirr.get_extra_radiation(int(doy))))
    z = np.radians(zen)
    eps = ((dhi + dni) / dhi + KAPPA * z ** 3) / (1 + KAPPA * z ** 3)
    b = int(np.digitize(eps, (0., 1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2))) - 1
    delta = dhi * am / et
    f1 = max(0., _F1C[b, 0] + _F1C[b, 1] * delta + _F1C[b, 2] * z)
    f2 = _F2C[b, 0] + _F2C[b, 1] * delta + _F2C[b, 2] * z
    return f1, f2


class Sky(object):
    """Irradiance inputs of one timestep."""

    def __init__(self, scn, i):
        t, irr = scn['t'], scn['irr']
        a = scn['arr']
        zen, azi, tilt, saz = (t[k][i] for k in ('zen', 'azi', 'tilt', 'saz'))
        self.dni, self.dhi, self.alb = t['dni'][i], t['dhi'][i], t['alb'][i]
        c = (lambda x: float(np.cos(np.radians(x))))
        s = (lambda x: float(np.sin(np.radians(x))))
        self.cosz = c(zen)
        self.cosf = c(tilt) * c(zen) + s(tilt) * s(zen) * c(azi - saz)
        self.tilt = tilt
        self.aoi_f = float(np.degrees(np.arccos(np.clip(self.cosf, -1, 1))))
        sp = irr.get('module_spacing_ratio', 0.)
        tr = irr.get('module_transparency', 0.)
        self.through = sp + (1. - sp) * tr
        ts = pd.Timestamp('2019-01-01') + pd.Timedelta(
            minutes=t['ts_min'][i])
        self.hybrid = irr['model'] == 'hybrid'
        self.rho = {'front': irr.get('rho_front', .01),
                    'back': irr.get('rho_back', .03)}
        self.ghi = t['ghi'][i] if 'ghi' in t else self.dni * self.cosz \
            + self.dhi
        self.regular = True
        f1, f2 = perez(ts.dayofyear, zen, self.dni, self.dhi)
        self.f1, self.f2 = f1, f2
        b = max(self.cosz, c(85.))
        if self.hybrid:
            self.lum_iso = self.dhi * (1. - f1)
            self.lum_circ = self.dhi * f1
            self.hor = abs(self.dhi * f2 * s(tilt))
            self.circ_gnd = self.lum_circ
            # pvlib zeroes everything when the sum of components is negative
            for ct, cf in ((c(tilt), self.cosf), (-c(tilt), -self.cosf)):
                tot = self.dhi * (.5 * (1 - f1) * (1 + ct)
                                  + f1 * max(cf, 0.) / b + f2 * s(tilt))
                if tot <= 1e-6 * max(self.dhi, 1e-9) and self.dhi > 0:
                    self.regular = False
        else:
            self.lum_iso, self.lum_circ = self.dhi, 0.
            self.hor, self.circ_gnd = 0., 0.
        self.dir_gnd = self.dni * self.cosz
        self.direct = {'front': self.dni * max(self.cosf, 0.),
                       'back': self.dni * max(-self.cosf, 0.)}
        self.circ = {'front': self.lum_circ * max(self.cosf, 0.) / b,
                     'back': self.lum_circ * max(-self.cosf, 0.) / b}
        self.band = irr.get('horizon_band_angle', 6.5)
        # numerically singular: sun in the plane of the rows
        self.grazing = abs(self.cosf) < 1e-7

    def perez_total_front(self):
        """Transposed total on an unobstructed front surface (isotropic sky
        plus ground reflection), as the fast mode assumes for neighbors."""
        ct = float(np.cos(np.radians(self.tilt)))
        return (self.direct['front'] + self.dhi * .5 * (1 + ct)
                + self.ghi * self.alb * .5 * (1 - ct))


def horizon_shading(geo, side, row, pt, band):
    """Fraction (0-1) of the horizon band hidden from point pt on the back of
    a row by the nearest row it faces."""
    if side != 'back':
        return 0.
    m = -geo.nrm
    if abs(m[0]) < 1e-15:
        # flat: the back side looks straight down
        j = row - 1
    else:
        j = row + 1 if m[0] > 0 else row - 1
    if not 0 <= j < geo.n:
        return 0.
    hi = geo.e1[j] if geo.e1[j][1] >= geo.e2[j][1] else geo.e2[j]
    ang = abs(np.degrees(np.arctan2(hi[1] - pt[1], abs(hi[0] - pt[0]))))
    return min(1., ang / band)


# ------------------------------------------------- full view factor matrix
TINY = 1e-6      # surfaces shorter than this [m] are treated as points


class Patch(object):
    """A surface of the code at one timestep, placed in the reference frame:
    ``kind`` 'g' (interval of the ground line) or 'r' (strip of a row side,
    positions along u), with its result vector position ``pos``."""

    __slots__ = ('pos', 'kind', 'row', 'side', 'lo', 'hi', 'shaded')

    def __init__(self, pos, kind, row, side, lo, hi, shaded):
        self.pos, self.kind, self.row, self.side = pos, kind, row, side
        self.lo, self.hi, self.shaded = lo, hi, shaded

    @property
    def length(self):
        return self.hi - self.lo


def patches(geo, surfs, c):
    """Patches with a length above TINY. ``c`` maps position -> (2, 2)
    coordinates of this timestep."""
    out = []
    for s in surfs:
        p = c[s.pos]
        if s.kind == 'g':
            lo, hi = sorted((p[0, 0], p[1, 0]))
        else:
            lo, hi = sorted(((p - geo.e1[s.row]) @ geo.u).tolist())
        if hi - lo > TINY:
            out.append(Patch(s.pos, s.kind, s.row, s.side, lo, hi, s.shaded))
    return out


def _grid(values, tol=1e-9):
    v = np.unique(np.asarray(values, dtype=float))
    keep = [v[0]]
    for x in v[1:]:
        if x - keep[-1] > tol:
            keep.append(x)
    return np.array(keep)


def target_maps(geo, pats):
    """Grids of strip / ground boundaries and maps target code -> pos."""
    rp = [p for p in pats if p.kind == 'r']
    gp = [p for p in pats if p.kind == 'g']
    row_cuts = _grid([0., geo.w] + [p.lo for p in rp] + [p.hi for p in rp])
    gnd_x = _grid([p.lo for p in gp] + [p.hi for p in gp])
    gmap = {}
    for k in range(len(gnd_x) - 1):
        m = .5 * (gnd_x[k] + gnd_x[k + 1])
        hit = [p.pos for p in gp if p.lo <= m <= p.hi]
        gmap[k] = hit[0] if hit else -1
    rmap = {}
    for side in ('front', 'back'):
        for j in range(geo.n):
            mine = [p for p in rp if p.row == j and p.side == side]
            for k in range(len(row_cuts) - 1):
                m = .5 * (row_cuts[k] + row_cuts[k + 1])
                hit = [p.pos for p in mine if p.lo <= m <= p.hi]
                rmap[side, 10000 * (j + 1) + k] = hit[0] if hit else -1
    return row_cuts, gnd_x, gmap, rmap


def to_pos(codes, side, gmap, rmap, sky):
    """Aggregate a dict target code -> value into a dict position -> value,
    for an observer on ``side`` (it sees the opposite side of other rows)."""
    other = 'back' if side == 'front' else 'front'
    out = {}
    for c, v in codes.items():
        if c < 0:
            p = sky
        elif c < 10000:
            p = gmap[c]
        else:
            p = rmap[other, c]
        out[p] = out.get(p, 0.) + v
    return out


def vf_matrix(geo, pats, n_surf, order=6):
    """Reference view factor matrix (n_surf + 1 square; sky last)."""
    F = np.zeros((n_surf + 1, n_surf + 1))
    row_cuts, gnd_x, gmap, rmap = target_maps(geo, pats)
    L = {p.pos: p.length for p in pats}
    for p in pats:
        if p.kind != 'r':
            continue
        codes = vf_from_row_strip(geo, p.row, 1. if p.side == 'front' else -1.,
                                  p.lo, p.hi, row_cuts, gnd_x, order=order)
        for q, v in to_pos(codes, p.side, gmap, rmap, n_surf).items():
            if q >= 0:
                F[p.pos, q] += v
    for g in pats:
        if g.kind != 'g':
            continue
        for p in pats:
            if p.kind == 'r':
                F[g.pos, p.pos] = F[p.pos, g.pos] * p.length / g.length
        F[g.pos, n_surf] = 1. - F[g.pos, :n_surf].sum()
    return F


# --------------------------------------------------------- full simulation
def patch_inputs(geo, sky, pats):
    """Independent irradiance inputs per patch: dict pos -> dict with direct,
    circumsolar, horizon, total, rho, and ``sh`` the shaded fraction found by
    ray casting (0 or 1 when the patch is correctly delimited)."""
    gsh = geo.ground_shadows()
    rsh = {}
    lit = 'front' if geo.cosf > 0 else 'back'
    out = {}
    for p in pats:
        if p.kind == 'g':
            f = overlap(gsh, p.lo, p.hi) / p.length
            k = sky.through if f > .5 else 1.
            d, ci, ho, rho = (k * sky.dir_gnd, k * sky.circ_gnd, 0., sky.alb)
        else:
            rho = sky.rho[p.side]
            ho = sky.hor
            if p.side == 'back':
                mid = geo.e1[p.row] + .5 * (p.lo + p.hi) * geo.u
                ho = ho * (1. - horizon_shading(geo, p.side, p.row, mid,
                                                sky.band))
            if p.side == lit:
                if p.row not in rsh:
                    rsh[p.row] = geo.shaded_interval(p.row)
                f = overlap(rsh[p.row], p.lo, p.hi) / p.length
            else:
                f = 0.
            k = sky.through if f > .5 else 1.
            d, ci = k * sky.direct[p.side], k * sky.circ[p.side]
        out[p.pos] = {'direct': d, 'circumsolar': ci, 'horizon': ho,
                      'irr': d + ci + ho, 'rho': rho, 'sh': f,
                      'length': p.length}
    return out


def solve(F, inp, n_surf, lum):
    """Radiosity equilibrium: incident irradiance per surface position."""
    pos = sorted(inp)
    Fp = F[np.ix_(pos, pos)]
    rho = np.array([inp[p]['rho'] for p in pos])
    E = np.array([inp[p]['irr'] for p in pos])
    iso = F[pos, n_surf] * lum
    A = np.eye(len(pos)) - Fp * rho[None, :]
    q = np.linalg.solve(A, E + iso)
    return {p: {'qinc': q[k], 'isotropic': iso[k],
                'reflection': float(Fp[k] @ (rho * q)),
                'rho': rho[k], 'irr': E[k]} for k, p in enumerate(pos)}


def fast_vf(geo, pats, p):
    """View factors of the fast mode for a patch of a back side: to shaded
    ground, lit ground, shaded and lit fronts of the neighbor, and the sky.
    Looking towards a neighbor the ground is complete (what is seen below the
    neighbor is ground); looking out of the array it ends at +-100 m."""
    m = -geo.nrm if p.side == 'back' else geo.nrm
    j = p.row + (1 if m[0] > 0 else -1)
    if abs(m[0]) < 1e-15 and geo.nrm[1] > 0:
        j = p.row - 1          # flat: not tilted to the left
    elif abs(m[0]) < 1e-15:
        j = p.row + 1
    inner = 0 <= j < geo.n
    row_cuts, gnd_x, gmap, rmap = target_maps(geo, pats)
    codes = vf_from_row_strip(geo, p.row, 1. if p.side == 'front' else -1.,
                              p.lo, p.hi, row_cuts, gnd_x, infinite=inner)
    sh = {q.pos: q.shaded for q in pats}
    gsh = geo.ground_shadows()
    other = 'back' if p.side == 'front' else 'front'
    rsh = {}
    out = dict.fromkeys(('to_gnd_shaded', 'to_gnd_illum', 'to_pvrow_shaded',
                         'to_pvrow_illum', 'to_sky'), 0.)
    # of every row, when the shadows are separate
    each = [0.] * geo.n if len(gsh) == geo.n else None
    lit = 'front' if geo.cosf > 0 else 'back'
    for c, v in codes.items():
        if c == -1:
            out['to_sky'] += v
        elif c == -2:
            out['to_gnd_illum'] += v
        elif c < 10000:
            mid = .5 * (gnd_x[c] + gnd_x[c + 1])
            s = [k for k, (a, b) in enumerate(gsh) if a <= mid <= b]
            out['to_gnd_shaded' if s else 'to_gnd_illum'] += v
            if s and each:
                each[s[0]] += v
        else:
            r, k = c // 10000 - 1, c % 10000
            if r not in rsh:
                rsh[r] = geo.shaded_interval(r) if lit == other else []
            mid = .5 * (row_cuts[k] + row_cuts[k + 1])
            s = any(a <= mid <= b for a, b in rsh[r])
            out['to_pvrow_shaded' if s else 'to_pvrow_illum'] += v
    out['to_each_gnd_shadow'] = each
    del sh, rmap, gmap
    return out


def fast_terms(st, p, views):
    """Terms of the light on a back patch in fast mode: one reflection of the
    known light of the ground and of the neighboring fronts."""
    sky = st.sky
    hyb = st.v.scn['irr']['model'] == 'hybrid'
    tot = sky.perez_total_front()
    lost = (sky.direct['front'] + (sky.circ['front'] if hyb else 0.)
            ) * (1. - sky.through)
    gsh = sky.dhi - (1 - sky.through) * sky.circ_gnd \
        + sky.through * sky.dir_gnd
    want = {
        'isotropic': views['to_sky'] * sky.lum_iso,
        'reflection_gnd_shaded': views['to_gnd_shaded'] * sky.alb * gsh,
        'reflection_gnd_illum': views['to_gnd_illum'] * sky.alb * sky.ghi,
        'reflection_pvrow_shaded': views['to_pvrow_shaded']
        * sky.rho['front'] * (tot - lost),
        'reflection_pvrow_illum': views['to_pvrow_illum']
        * sky.rho['front'] * tot,
        'sky_term': st.inputs()[p.pos]['irr']}
    want['reflection'] = sum(want[k] for k in want
                             if k.startswith('reflection_'))
    want['qinc'] = want['reflection'] + want['isotropic'] + want['sky_term']
    return want
