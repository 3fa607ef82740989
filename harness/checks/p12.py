"""P12: running in parallel gives the report of a serial run."""
import os
import time
import numpy as np
import pandas as pd
from .. import cases, core, sut
from ..scenario import rng_for

ID = 'P12'
RULE = ('random series split over 1..n+3 processes (and one per core), with '
        'random delays per fold so that folds finish in any order, several '
        'timestamp and albedo types, both modes and models; non-trivial per '
        'distinct (number of steps, processes, mode, model, options, '
        'finishing order class)')
COUNT = {'quick': 80, 'thorough': 700}
REQUIRED = {'parallel': 30, 'out-of-order': 5, 'more-processes': 3,
            'uneven': 8, 'fast': 8, 'ghi': 8, 'all-cores': 1, 'tz': 4,
            'scalar-albedo': 3, 'faoi': 3, 'empty-fold': 3,
            'segment': 4, 'segments-left-out': 3, 'long': 3, 'user-classes': 12, 'example': 12}
ASSUMPTIONS = ['worker processes are real; their interleaving is steered by '
               'delays inside the user supplied report builder']
MAX_JOBS = 4
TOL = 1e-9
USER = ['', 'cls_pvarray', 'cls_engine', 'cls_vf', 'cls_irradiance', 'all']
NAMES = ['qinc', 'isotropic', 'reflection', 'direct']


def corners(tier):
    out = []
    base = cases.corner_cases()
    for i, j in enumerate((0, 3, 4, 7, 8, 12, 17, 21, 24, 29)):
        c = dict(base[j])
        n = len(c['scn']['t']['zen'])
        c.update(n_proc=[1, 2, 3, n, -1, n + 2, 2, 4, 2, 3][i],
                 fast=i % 4 == 1 or i == 8, seed=i, ts=['index', 'tz', 'list', 'dst',
                                              'datetime64'][i % 5],
                 scalar_albedo=i % 3 == 0, ordered=i % 2 == 0,
                 user=USER[i % len(USER)], seg=i % 3 == 2)
        out.append(several_segments(c))
    # long series, many processes
    for i, (n, m) in enumerate(((130, 3), (257, 11), (1200, 5))):
        c = cases.random_case(rng_for(777, i), 5, tier, long_every=97,
                              long_n=n, max_zenith=89.5, max_rows=3)
        c.update(n_proc=m, fast=i == 2, seed=i, ts='index', user='', seg=False,
                 scalar_albedo=False, ordered=False)
        out.append(c)
    return out


def gen(rng, k, tier):
    kw = dict(faoi=True, n_sections=60) if k % 6 == 1 else {}
    c = cases.random_case(rng, k, tier, max_zenith=89.5, long_every=0,
                          many=(4, 5), max_rows=3, max_cut=2,
                          n_steps=(3, 14), **kw)
    n = len(c['scn']['t']['zen'])
    r = rng.random()
    c['n_proc'] = (int(rng.integers(2, min(n, 7) + 1)) if r < .75 and n > 1
                   else 1 if r < .8 else n + int(rng.integers(1, 3)))
    if k % 13 == 7:
        c['n_proc'] = -1
    c['fast'] = bool(rng.random() < .35)
    c['seed'] = int(rng.integers(0, 2 ** 31))
    c['ts'] = str(rng.choice(['index', 'tz', 'list', 'dst', 'datetime64']))
    c['scalar_albedo'] = bool(rng.random() < .25)
    c['user'] = str(rng.choice(USER)) if rng.random() < .5 else ''
    c['seg'] = bool(rng.random() < .5)
    c['ordered'] = bool(rng.random() < .3)
    return several_segments(c)


def several_segments(c):
    """Where one segment is asked for, leave others."""
    if c['fast'] and c['seg']:
        cut = c['scn']['arr'].setdefault('cut', {})
        for i in range(c['scn']['arr']['n_pvrows']):
            d = cut[str(i)] = dict(cut.get(str(i), {}))
            d['back'] = max(d.get('back', 1), 2 + i % 2)
    return c


def value(ts_surface, name):
    """Result on a surface, or a code for what was not calculated."""
    try:
        v = ts_surface.get_param(name)
    except KeyError:
        return -7.
    return -7. if v is None else np.asarray(v, float)


class Builder(object):
    """User report builder: collects every result, sleeps a while, and keeps
    a log of the events it saw."""

    def __init__(self, fast, row, seg, delays):
        self.fast, self.row, self.seg = fast, row, seg
        self.delays = delays
        self.merges = []

    def build(self, pvarray):
        from harness import sut as s
        n = pvarray.n_states
        t0 = time.time()
        rows = []
        for surf in s.all_surfs(pvarray):
            c = s.coords(surf.ts, n)
            L = s.seg_len(c)
            vals = [np.broadcast_to(value(surf.ts, k), n) for k in NAMES]
            rows.append(np.where(L > 1e-6, np.stack(vals + [L]), 0.))
        data = np.stack(rows)                      # (S, P, n)
        time.sleep(self.delays[int(1e6 * abs(data).sum()) % len(self.delays)]
                   if len(self.delays) else 0.)
        return {'data': data, 'n': n, 'pid': os.getpid(), 't0': t0,
                't1': time.time(), 'calls': 1}

    def merge(self, reports):
        self.merges.append(len(reports))
        return {'data': np.concatenate([r['data'] for r in reports], axis=2),
                'log': [(r['n'], r['pid'], r['t0'], r['t1'], r['calls'])
                        for r in reports]}


def custom_classes(irr_cls):
    """User classes, with an effect of their own on the results."""
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    import harness.checks.p12 as me

    def keep(name, cls):
        # reachable by name, so that worker processes can load it
        cls.__module__, cls.__qualname__, cls.__name__ = me.__name__, name, \
            name
        setattr(me, name, cls)
        return cls

    class UserArray(OrderedPVArray):
        @classmethod
        def init_from_dict(cls, *a, **k):
            up = (lambda d: dict(d, pvrow_height=d['pvrow_height'] + .37)
                  if isinstance(d, dict) and 'pvrow_height' in d else d)
            return super(UserArray, cls).init_from_dict(
                *[up(x) for x in a], **{q: up(x) for q, x in k.items()})

    class UserEngine(PVEngine):
        def fit(self, *a, **k):
            a = list(a)
            if len(a) > 7:
                a[7] = np.asarray(a[7]) * .5
            else:
                k['albedo'] = np.asarray(k['albedo']) * .5
            return super(UserEngine, self).fit(*a, **k)

    class UserVF(VFCalculator):
        def build_ts_vf_matrix(self, *a, **k):
            out = super(UserVF, self).build_ts_vf_matrix(*a, **k)
            out[:, -1, :] *= .9
            return out

    class UserIrr(irr_cls):
        def __init__(self, *a, **k):
            super(UserIrr, self).__init__(
                *a, **dict(k, rho_front=.31, rho_back=.27))
    return {'cls_pvarray': keep('UserArray', UserArray),
            'cls_engine': keep('UserEngine', UserEngine),
            'cls_vf': keep('UserVF', UserVF),
            'cls_irradiance': keep('UserIrr', UserIrr)}


def stamps(kind, scn):
    ts = pd.DatetimeIndex(sut.Inputs(scn).ts)
    if kind == 'tz':
        return ts.tz_localize('UTC').tz_convert('US/Arizona')
    if kind == 'dst':
        return ts.tz_localize('UTC').tz_convert('Europe/Paris')
    if kind == 'list':
        return ts.to_pydatetime().tolist()
    if kind == 'datetime64':
        return ts.values
    return ts


def example(args, kw, case, n, man, eng, mon):
    """The report builder that comes with the package."""
    from pvfactors.report import ExampleReportBuilder
    from pvfactors.run import run_parallel_engine
    N = max(1, min(n, case['n_proc']))
    with sut.code('example report'):
        got = run_parallel_engine(ExampleReportBuilder, *args,
                                  n_processes=N, **kw)
        row = eng.pvarray.ts_pvrows[1]
        want = {'%s_%s' % (nm, s): np.asarray(
            getattr(row, s).get_param_weighted(k), float)
            for nm, k in (('qinc', 'qinc'), ('iso', 'isotropic'))
            for s in ('front', 'back')}
    mon.ok(sorted(got) == sorted(want), 'example-report', 'keys',
           got=sorted(got))
    for k in want:
        mon.close(got[k], want[k], TOL, 'example-report:' + k,
                  'example report differs from the results', scale=2000.)
    mon.hit('example')


def judge(case, mon):
    from pvfactors.run import run_parallel_engine, run_timeseries_engine
    scn = case['scn']
    n = len(scn['t']['zen'])
    if case['scalar_albedo']:
        scn = dict(scn, t=dict(scn['t'], alb=[scn['t']['alb'][0]] * n))
    a = scn['arr']
    rng = np.random.default_rng(case['seed'])
    inp = sut.Inputs(scn)
    fast, row = case['fast'], int(rng.integers(0, a['n_pvrows']))
    alb = float(inp.alb[0]) if case['scalar_albedo'] else inp.alb
    ts = stamps(case['ts'], scn)
    seg = None
    if fast and case.get('seg'):
        nb = a.get('cut', {}).get(str(row), {}).get('back', 1)
        seg = int(rng.integers(0, nb))
        mon.hit('segment')
        mon.hit('segments-left-out', nb > 1)
    user = case.get('user', '')
    delays = [] if case['ordered'] else [0., .05, .11, .02, .16, 0.08]
    kw = dict(cls_irradiance=sut.irr_class(scn['irr']),
              irradiance_model_params=sut.irr_kwargs(scn['irr']),
              vf_calculator_params=sut.vf_kwargs(scn.get('vf')),
              fast_mode_pvrow_index=row if fast else None,
              fast_mode_segment_index=seg, ghi=inp.ghi)
    if user:
        classes = custom_classes(kw['cls_irradiance'])
        kw.update(classes if user == 'all' else {user: classes[user]})
        mon.hit('user-classes')
    args = (sut.array_params(a), ts, inp.dni, inp.dhi, inp.zen, inp.azi,
            inp.tilt, inp.saz, alb)
    b = Builder(fast, row, seg, delays)
    with sut.code('run_parallel_engine'):
        par = run_parallel_engine(b, *args, n_processes=case['n_proc'], **kw)
    s = Builder(fast, row, seg, [])
    with sut.code('run_timeseries_engine'):
        ser = run_timeseries_engine(s.build, *args, **kw)
    # the same through the engine class
    with sut.code('engine'):
        eng = kw.get('cls_engine', sut.PVEngine)(
            kw.get('cls_pvarray', sut.OrderedPVArray).init_from_dict(
                sut.array_params(a)),
            irradiance_model=kw['cls_irradiance'](
                **sut.irr_kwargs(scn['irr'])),
            vf_calculator=kw.get('cls_vf', sut.VFCalculator)(
                **sut.vf_kwargs(scn.get('vf'))),
            fast_mode_pvrow_index=row if fast else None,
            fast_mode_segment_index=seg)
        eng.fit(ts, inp.dni, inp.dhi, inp.zen, inp.azi, inp.tilt, inp.saz,
                alb, ghi=inp.ghi)
        man = (eng.run_fast_mode(s.build) if fast
               else eng.run_full_mode(s.build))
    if not fast and a['n_pvrows'] > 1:
        example(args, kw, case, n, man, eng, mon)
    N = os.cpu_count() if case['n_proc'] == -1 else case['n_proc']
    log = par['log'] if isinstance(par, dict) else []
    sc = np.concatenate([np.abs(inp.dni) + np.abs(inp.dhi) + 1.])
    mon.close(man['data'], ser['data'], TOL, 'functional',
              'functional run differs from the engine', scale=sc)
    mon.ok(b.merges == [len(log)], 'merge-once',
           'folds are not merged exactly once', merges=b.merges, want=N)
    mon.ok(sum(x[0] for x in log) == n, 'conservation',
           'timesteps lost or repeated', folds=[x[0] for x in log], n=n)
    if mon.ok(par['data'].shape == ser['data'].shape, 'shape',
              'parallel report has another size',
              got=list(par['data'].shape), want=list(ser['data'].shape)):
        mon.close(par['data'], ser['data'], TOL, 'parallel',
                  'parallel report differs from the serial one', scale=sc)
    # evidence
    ends = [x[3] for x in log if x[0] > 0]
    ooo = any(x > y for x, y in zip(ends[:-1], ends[1:]))
    mon.hit('parallel', N > 1)
    mon.hit('out-of-order', ooo)
    mon.hit('more-processes', N > n)
    mon.hit('empty-fold', any(x[0] == 0 for x in log))
    mon.hit('long', n > 100)
    mon.hit('uneven', N > 1 and n % N != 0)
    mon.hit('fast', fast)
    mon.hit('ghi', inp.ghi is not None)
    mon.hit('all-cores', case['n_proc'] == -1)
    mon.hit('tz', case['ts'] in ('tz', 'dst'))
    mon.hit('scalar-albedo', case['scalar_albedo'])
    mon.hit('faoi', bool(scn.get('vf')))
    mon.hit('worker-processes', len({x[1] for x in log}))
    mon.sig(n, N, fast, user, seg is not None, scn['irr']['model'], case['ts'],
            case['scalar_albedo'], inp.ghi is not None, ooo,
            tuple(np.argsort(ends)) if N < 5 else '')
