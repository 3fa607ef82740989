"""Common case builders: {'scn': scenario, ...}."""
import numpy as np

from .directed import directed, long_scenario
from .scenario import PRE, gen_scenario, slow


def corner_cases(**kw):
    out = [{'scn': s} for s in directed(**kw)]
    for i, c in enumerate(out):
        if i % 4 == 1:
            c['scn']['pre'] = PRE[(i // 4) % len(PRE)]
    return out


def n_surfaces(arr):
    """Number of timeseries surfaces of an array."""
    R, cut = arr['n_pvrows'], arr.get('cut', {})
    segs = sum(cut.get(str(r), {}).get(s, 1) for r in range(R)
               for s in ('front', 'back'))
    return 2 * segs + (2 * R + 1) * (R + 1)


def random_case(rng, k, tier, raised=False, low=True, **kw):
    """raised: the ground of some arrays is at another height, and some rows
    are close to it."""
    c = _random_case(rng, k, tier, **kw)
    if raised and k % 12 == 7:
        c['scn']['arr']['y_ground'] = round(float(
            rng.choice([rng.uniform(-4., 4.), rng.uniform(.1, 15.)])), 3)
    if low and k % 12 == 2:
        low_rows(rng, c['scn'])
    return c


def low_rows(rng, scn):
    """Rows closer to the ground than half their width, which are never so
    steep that they would reach it."""
    cap = round(float(rng.uniform(3., 75.)), 3)
    t, arr = scn['t'], scn['arr']
    t['tilt'] = [x if x <= cap or x >= 180. - cap else
                 cap if x <= 90. else 180. - cap for x in t['tilt']]
    arr['pvrow_height'] = round(float(
        arr['pvrow_width'] / 2. * np.sin(np.radians(cap))
        + rng.uniform(.01, .4) * min(arr['pvrow_width'], 2.)), 5)


def _random_case(rng, k, tier, long_every=97, long_n=400, many=(6, 12),
                 **kw):
    """Mostly short mixed scenarios; sometimes long series, many rows, many
    cuts or one timestep."""
    if long_every and k % long_every == 5:
        return {'scn': long_scenario(rng, n=long_n, **{
            x: v for x, v in kw.items() if x != 'n_steps'})}
    if k % 11 == 3:
        kw = dict(kw, min_rows=many[0], max_rows=many[1], max_extent=70., max_cut=2,
                  n_steps=(2, 5))
    elif k % 13 == 4:
        kw = dict(kw, max_rows=2, max_cut=9 if k % 2 else 14, n_steps=(3, 8))
    elif k % 37 == 9:
        kw = dict(kw, min_rows=9, max_rows=13, max_extent=85., max_cut=2,
                  n_steps=(1, 3))
    elif k % 17 == 6:
        kw = dict(kw, n_steps=(1, 1))
    elif k % 29 == 12:
        # as many timesteps as there are surfaces (with or without the sky)
        kw = dict(kw, min_rows=1, max_rows=1 + k % 2, max_cut=2)
        n = 40 if k % 2 else 16
        scn = gen_scenario(rng, **dict(kw, n_steps=(n, n)))
        m = n_surfaces(scn['arr']) + int(rng.integers(0, 2))
        scn['t'] = {x: y[:m] for x, y in scn['t'].items()}
        return {'scn': scn}
    elif k % 19 == 8:
        scn = gen_scenario(rng, **dict(kw, n_steps=(2, 2)))
        scn['t'] = slow(rng, scn['t'], int(rng.integers(8, 30)),
                        kw.get('max_zenith', 89.))
        return {'scn': scn}
    return {'scn': gen_scenario(rng, **kw)}
