"""P13: results do not depend on what the objects did before, and inputs are
left alone."""
import copy
import sys
import threading
import numpy as np
import pandas as pd
from .. import cases, compare, core, sut
from ..scenario import gen_times, make_faoi, rng_for

ID = 'P13'
RULE = ('random histories (fits with other series lengths and options, full '
        'and fast runs, reports, plots of snapshots, shared calculator or '
        'model objects) before the judged run, compared with fresh objects; '
        'non-trivial per distinct sequence of operations and model')
COUNT = {'quick': 120, 'thorough': 2200}
REQUIRED = {'refit': 60, 'longer-first': 10, 'shorter-first': 4,
            'fast-then-full': 15, 'full-then-fast': 15, 'shared-objects': 20,
            'inputs-kept': 60, 'faoi': 8, 'scalar-first': 5, 'rerun': 20,
            'partial-refit': 20, 'handed-out': 60,
            'runner-views-only': 10, 'bystander': 30, 'default-objects': 60, 'other-skips': 4,
            'in-place': 20, 'after-failure': 40, 'failed-run-repeated': 3,
            'odd-inputs': 300, 'as-created': 60, 'as-created-segment': 20, 'threads': 30,
            'thread-switches': 300, 'reentered': 100}
TOL = 1e-10
OPS = ['fit', 'fit', 'full', 'fast', 'at', 'report', 'fitscalar', 'matrix',
       'part', 'part', 'part']
# a refit that changes only some of the inputs (same series length)
PARTS = [('zen', 'azi'), ('tilt', 'saz'), ('dni', 'dhi'), ('alb',),
         ('ts_min',), ('ghi',), ('zen', 'azi', 'dni', 'dhi', 'ts_min'),
         ('dni',), ('dhi',), ('zen',), ('azi',), ('tilt',),
         ('zen', 'azi', 'tilt', 'saz')]


def corners(tier):
    out = []
    seqs = [['full'], ['fast'], ['fit', 'full'], ['fit', 'fast', 'full'],
            ['full', 'full'], ['fast', 'fast'], ['full', 'at'],
            ['fitscalar', 'full'], ['fit', 'full', 'matrix'],
            ['fit', 'at', 'report']]
    for k in range(len(PARTS)):
        seqs += [['part:%d' % k, 'full'], ['part:%d' % k, 'fast']]
    corner = list(cases.corner_cases())
    for i in range(max(len(corner), len(seqs))):
        c = corner[i % len(corner)]
        out.append(dict(c, seed=i, ops=seqs[i % len(seqs)],
                        shared=i % 3 == 0))
    return out


def gen(rng, k, tier):
    kw = dict(faoi=True, n_sections=50, max_rows=3) if k % 5 == 1 else {}
    c = cases.random_case(rng, k, tier, max_zenith=89.5, long_every=0,
                          many=(4, 6), n_steps=(2, 9), **kw)
    c['ops'] = [str(x) for x in rng.choice(OPS, size=int(rng.integers(1, 5)))]
    c['seed'] = int(rng.integers(0, 2 ** 31))
    c['shared'] = bool(rng.random() < .4)
    return c


def in_place(eng, inp, want, rng, full):
    """Fit to other values held by the same input arrays, which get the
    judged values afterwards."""
    names = ('zen', 'azi', 'tilt', 'saz', 'dni', 'dhi', 'alb', 'ghi')
    part = PARTS[int(rng.integers(0, len(PARTS)))]
    for k in names:
        x = getattr(inp, k)
        if x is None or k not in part:
            continue
        if k == 'saz':
            x += 180.
        else:
            x *= .9 if k != 'azi' else 1.1
    sut_fit(eng, inp)
    with sut.code('running the engine'):
        eng.run_full_mode() if full else eng.run_fast_mode(pvrow_index=0)
    for k, x in zip(names, want):
        if x is not None:
            getattr(inp, k)[:] = x


def judge(case, mon):
    from pvfactors.run import run_timeseries_engine
    import matplotlib
    matplotlib.use('Agg')
    scn = dict(case['scn'])
    scn.pop('pre', None)      # (histories are the subject here)
    n = len(scn['t']['zen'])
    rng = np.random.default_rng(case['seed'])
    R = scn['arr']['n_pvrows']
    row = int(rng.integers(0, R))
    scale = compare.scale_of(scn)
    ids = np.arange(n)
    mon.hit('faoi', bool(scn.get('vf')))
    # ---- reference: fresh objects
    want_full = compare.full_result(scn)
    want_fast = compare.fast_result(scn, row=row)
    # ---- objects with a past
    with sut.code('building the engine'):
        if case['shared']:
            first = sut.build_engine(scn)
            other = dict(scn, arr=dict(scn['arr'], n_pvrows=R % 3 + 1))
            other['arr'].pop('cut', None)
            inp = other_inputs(other, rng)
            a2 = sut.OrderedPVArray.init_from_dict(
                sut.array_params(other['arr']))
            e2 = sut.PVEngine(a2, vf_calculator=first.vf_calculator,
                              irradiance_model=first.irradiance)
            e2.fit(*inp.fit_args(), ghi=inp.ghi)
            e2.run_full_mode()
            eng = first
            mon.hit('shared-objects')
        else:
            eng = sut.build_engine(scn)
    inp = sut.Inputs(scn)
    sut_fit(eng, inp)
    with sut.code('run_full_mode'):
        eng.run_full_mode()
    held = handed_out(eng)
    done = []
    for op in case['ops']:
        done.append(op)
        apply_op(eng, op, scn, rng, row, mon, n)
        if op != 'fast':      # (a fast run of the same fit adds to it)
            held += handed_out(eng) if op == 'full' else []
    # ---- judged: refit on the scenario
    params = sut.array_params(scn['arr'])
    inp = sut.Inputs(scn)
    before = copy.deepcopy([getattr(inp, k) for k in
                            ('zen', 'azi', 'tilt', 'saz', 'dni', 'dhi', 'alb',
                             'ghi')])
    stamps = pd.DatetimeIndex(inp.ts).copy()
    flags_before = np.array(eng.skip_step)
    if case['seed'] % 3 == 0:     # the same arrays, with other values before
        in_place(eng, inp, before, rng, case['seed'] % 2)
        mon.hit('in-place')
    sut_fit(eng, inp)
    mon.hit('refit')
    fresh = sut.fit_engine(scn)
    a, b = np.asarray(eng.skip_step), np.asarray(fresh.skip_step)
    mon.ok(a.shape == b.shape and bool(np.all(a == b)), 'history-skip',
           'which timesteps are skipped depends on the history',
           got=a.tolist(), want=b.tolist(), history=str(done))
    mon.ok(eng.n_points == fresh.n_points, 'history-skip',
           'number of timesteps depends on the history')
    mon.hit('other-skips', flags_before.shape == b.shape
            and not np.array_equal(flags_before, b))
    tag = '>'.join(done) + ('/shared' if case['shared'] else '')
    mon.sig(scn['irr']['model'], tag)
    idle = case['seed'] % 4
    if idle in (1, 2):
        bystander(scn, rng, idle)
        mon.hit('bystander')
    got = compare.full_result(scn, eng)
    compare.same(mon, got, want_full, ids, ids, TOL, 'history-full',
                 'full mode depends on the history', scale, history=tag)
    if idle in (2, 3):
        bystander(scn, rng, idle)
        mon.hit('bystander')
    got = compare.fast_result(scn, eng, row)
    mon.hit('full-then-fast')
    compare.same(mon, got, want_fast, ids, ids, TOL, 'history-fast',
                 'fast mode depends on the history', scale, history=tag)
    got = compare.full_result(scn, eng)
    mon.hit('fast-then-full')
    compare.same(mon, got, want_full, ids, ids, TOL, 'rerun-full',
                 'a second full run differs', scale, history=tag)
    mon.hit('rerun')
    # ---- what was handed out before
    for nm, ref, keep in held:
        mon.ok(np.array_equal(ref, keep, equal_nan=True), 'handed-out-kept',
               '%s read earlier was changed later' % nm, history=tag)
    mon.hit('handed-out', bool(held))
    # ---- inputs left alone
    after = [getattr(inp, k) for k in ('zen', 'azi', 'tilt', 'saz', 'dni',
                                       'dhi', 'alb', 'ghi')]
    for x, y, nm in zip(before, after, ('zenith', 'azimuth', 'tilt',
                                        'surface azimuth', 'dni', 'dhi',
                                        'albedo', 'ghi')):
        same = (x is None and y is None) or np.array_equal(x, y)
        mon.ok(same, 'inputs-unchanged', 'input %s was changed' % nm)
    mon.ok(pd.DatetimeIndex(inp.ts).equals(stamps), 'inputs-unchanged',
           'timestamps were changed')
    p2 = copy.deepcopy(params)
    with sut.code('init_from_dict, fit, run'):
        e2 = sut.PVEngine(sut.OrderedPVArray.init_from_dict(p2),
                          irradiance_model=sut.irr_class(scn['irr'])())
        e2.fit(*inp.fit_args(), ghi=inp.ghi)
        e2.run_full_mode()
        e2.run_fast_mode(pvrow_index=row)
    mon.ok(p2 == params, 'inputs-unchanged', 'array parameters were changed',
           got=p2, want=params)
    defaults(scn, rng, row, mon)
    copies(scn, rng, row, mon)
    if R < 5 and case['seed'] % 2:
        threads(scn, rng, row, mon)
    reentrant(scn, rng, row, mon)
    as_created(scn, rng, row, mon)
    after_failures(scn, rng, row, mon)
    odd_inputs(scn, rng, row, mon)
    # ---- what the user gives to the runner is left alone too
    f = make_faoi({'kind': 'power', 'c': .9, 'k': 4.})
    fns = {'faoi_fn_front': f, 'faoi_fn_back': f}
    given = {'params': sut.array_params(scn['arr']),
             'irradiance_model_params': sut.irr_kwargs(scn['irr']),
             'vf_calculator_params': sut.vf_kwargs(scn.get('vf'))}
    if not given['vf_calculator_params'] and rng.random() < .4:
        given['vf_calculator_params'] = dict(fns, n_aoi_integral_sections=20)
        mon.hit('runner-views-only',
                'faoi_fn_front' not in given['irradiance_model_params'])
    given['params'].setdefault('cut', {})
    if rng.random() < .5:
        given['params']['cut'].setdefault(0, {})
    kept = {k: copy.deepcopy(x) if k == 'params' else dict(x)
            for k, x in given.items()}
    fast = bool(rng.random() < .5)
    gives = []
    for _ in range(2):
        with sut.code('run_timeseries_engine'):
            gives.append(run_timeseries_engine(
                _qinc, given['params'], *inp.fit_args(), ghi=inp.ghi,
                cls_irradiance=sut.irr_class(scn['irr']),
                irradiance_model_params=given['irradiance_model_params'],
                vf_calculator_params=given['vf_calculator_params'],
                fast_mode_pvrow_index=row if fast else None))
    for k in given:
        mon.ok(given[k] == kept[k], 'inputs-unchanged',
               'the dictionary %s of the user was changed' % k,
               got=str(given[k]), want=str(kept[k]))
    mon.close(gives[0], gives[1], TOL, 'runner-repeat',
              'running the same thing again differs')
    mon.hit('inputs-kept')


def _qinc(arr):
    """(before the fast mode, only the light of the models is there)"""
    out = []
    for s in sut.all_surfs(arr):
        for nm in ('qinc', 'qabs', 'direct_absorbed', 'rho'):
            try:
                x = np.asarray(s.ts.get_param(nm), float)
            except KeyError:
                continue
            x = np.broadcast_to(x, s.ts.length.shape)
            out.append(np.where(s.ts.length > 1e-6, x, 0.))
    return np.nan_to_num(np.array(out), nan=-777.)


def _qinc_all(arr):
    """Light of every surface, -777 where there is none."""
    out = []
    for s in sut.all_surfs(arr):
        try:
            x = np.broadcast_to(np.asarray(s.ts.get_param('qinc'), float),
                                s.ts.length.shape)
            x = np.where(s.ts.length > 1e-6, np.nan_to_num(x, nan=-999.), 0.)
        except KeyError:
            x = np.full(s.ts.length.shape, -777.)
        out.append(x)
    return np.array(out)


def handed_out(eng):
    """Arrays a user can have read, and what was in them."""
    arr = eng.pvarray
    out = [('view factor matrix', arr.ts_vf_matrix),
           ('weighted view factor matrix', arr.ts_vf_aoi_matrix),
           ('rotation', arr.rotation_vec)]
    for s in arr.all_ts_surfaces:
        out += [('%s of a surface' % k, s.get_param(k))
                for k in ('qinc', 'q0', 'qabs', 'direct', 'isotropic')]
        out += [('coordinates', s.coords.b1.x), ('coordinates', s.coords.b2.y)]
    out += [('side average', r.back.get_param_weighted('qinc'))
            for r in arr.ts_pvrows]
    return [(nm, x, np.array(x, copy=True)) for nm, x in out]


def bystander(scn, rng, kind):
    """Objects that have nothing to do with the judged ones, in use at the
    same time: same classes, other rows, cuts, inputs and settings."""
    R = scn['arr']['n_pvrows']
    other = dict(scn, arr=dict(scn['arr'], n_pvrows=R % 3 + kind % 2,
                               cut={'0': {'back': 3, 'front': 2}}),
                 irr=dict(scn['irr'], rho_front=.21, rho_back=.33,
                          module_transparency=.37))
    other['arr']['n_pvrows'] = max(other['arr']['n_pvrows'], 1)
    other['arr']['pvrow_height'] += .8
    n = len(scn['t']['zen'])
    inp = other_inputs(other, rng, n if rng.random() < .5 else None)
    eng = sut.build_engine(other)
    with sut.code('other objects at the same time'):
        eng.fit(*inp.fit_args(), ghi=rng.uniform(100, 900, inp.n))
        if kind != 1:
            eng.run_full_mode()
        eng.run_fast_mode(pvrow_index=0)
        eng.pvarray.ts_ground.at(0)


def defaults(scn, rng, row, mon):
    """Engines created with the default model and calculator do not have
    them in common."""
    from pvfactors.irradiance import HybridPerezOrdered
    mine, other = sut.Inputs(scn), other_inputs(
        scn, rng, len(scn['t']['zen']) if rng.random() < .7 else None)
    fast = bool(rng.random() < .5)

    def new(**kw):
        return sut.PVEngine(sut.OrderedPVArray.init_from_dict(
            sut.array_params(scn['arr'])), **kw)

    def run(eng):
        if fast:
            eng.run_fast_mode(pvrow_index=row)
        else:
            eng.run_full_mode()
        return _qinc(eng.pvarray)
    with sut.code('engines with default objects'):
        ref = new(irradiance_model=HybridPerezOrdered(),
                  vf_calculator=sut.VFCalculator())
        ref.fit(*mine.fit_args(), ghi=mine.ghi)
        want = run(ref)
        one, two = new(), new()
        one.fit(*mine.fit_args(), ghi=mine.ghi)
        two.fit(*other.fit_args(), ghi=other.ghi)
        run(two)
        got = run(one)
    mon.close(got, want, TOL, 'default-objects', 'engines with default '
              'objects influence each other', scale=compare.scale_of(scn))
    mon.hit('default-objects')


def as_created(scn, rng, row, mon):
    """A row or segment asked for in one run is not remembered: later runs
    calculate what the engine was created for."""
    R = scn['arr']['n_pvrows']

    def nseg(r):
        return int(scn['arr'].get('cut', {}).get(str(r), {}).get('back', 1))
    seg = int(rng.integers(0, nseg(row))) if rng.random() < .4 else None
    runs = []
    for _ in range(int(rng.integers(1, 4))):
        r = int(rng.integers(0, R))
        runs.append({'pvrow_index': r} if rng.random() < .6 or seg is not None
                    and nseg(r) <= seg else {})
        r = r if runs[-1] else row
        if rng.random() < .6 or seg is not None and nseg(r) <= seg:
            runs[-1]['segment_index'] = int(rng.integers(0, nseg(r)))

    def new():
        return sut.build_engine(scn, fast_mode_pvrow_index=row,
                                fast_mode_segment_index=seg)
    inp = sut.Inputs(scn)
    with sut.code('runs of chosen rows and segments, then as created'):
        ref = new()
        ref.fit(*inp.fit_args(), ghi=inp.ghi)
        ref.run_fast_mode()
        want = _qinc_all(ref.pvarray)
        eng = new()
        for kw in runs:
            eng.fit(*inp.fit_args(), ghi=inp.ghi)
            eng.run_fast_mode(**kw)
            if rng.random() < .2:
                eng.run_full_mode()
        eng.fit(*inp.fit_args(), ghi=inp.ghi)
        eng.run_fast_mode()
        got = _qinc_all(eng.pvarray)
    mon.close(got, want, TOL, 'as-created', 'an engine calculates what was '
              'asked for in an earlier run', scale=compare.scale_of(scn),
              runs=str(runs), segment=seg)
    mon.hit('as-created')
    mon.hit('as-created-segment', any('segment_index' in x for x in runs))


class Stop(Exception):
    """Raised by the functions of the user."""


def after_failures(scn, rng, row, mon):
    """A fit or run that failed leaves nothing behind that matters."""
    irr = sut.irr_kwargs(scn['irr'])
    armed = []
    fns = {}
    for k in ('faoi_fn_front', 'faoi_fn_back'):
        f = irr.get(k) or make_faoi({'kind': 'power', 'c': .9, 'k': 4.})
        f = getattr(f, 'faoi', f)

        def fails(a, f=f, k=k):
            if armed and armed[0] == k:
                armed.pop()
                raise Stop(k)
            return f(a)
        fns[k] = fails
    irr.update(fns)

    def new():
        arr = sut.array_class(scn['arr']).init_from_dict(
            sut.array_params(scn['arr']))
        return sut.PVEngine(arr, irradiance_model=sut.irr_class(
            scn['irr'])(**irr), vf_calculator=sut.VFCalculator(
                n_aoi_integral_sections=30, **fns),
            fast_mode_pvrow_index=row)

    def stop(_):
        raise Stop('report')
    fast = bool(rng.random() < .5)
    mine = sut.Inputs(scn)
    n = mine.n

    R = scn['arr']['n_pvrows']

    def run(eng, fn=None):
        if fast and fn:          # (of any row)
            return eng.run_fast_mode(fn, pvrow_index=int(rng.integers(0, R)),
                                     segment_index=[None, 0][R % 2])
        if fast:
            return eng.run_fast_mode()
        return eng.run_full_mode(fn)
    with sut.code('engine with functions that may fail'):
        ref = new()
        ref.fit(*mine.fit_args(), ghi=mine.ghi)
        run(ref)
        want = _qinc_all(ref.pvarray)
        eng = new()
        if rng.random() < .5:
            other = other_inputs(scn, rng, n if rng.random() < .5 else None)
            eng.fit(*other.fit_args(), ghi=other.ghi)
            run(eng)
    failed = []
    kinds = ['report', 'faoi_fn_front', 'faoi_fn_back', 'short', 'report']
    for kind in [str(x) for x in rng.choice(kinds, int(rng.integers(1, 4)))]:
        other = other_inputs(scn, rng, n if rng.random() < .5 else None)
        args = list(other.fit_args())
        if kind == 'short':      # one input is too short
            j = int(rng.integers(1, 7))
            args[j] = args[j][:-1]
        try:
            if kind[:4] == 'faoi':
                armed[:] = [kind]
            eng.fit(*args, ghi=other.ghi)
            run(eng, stop if kind == 'report' else None)
        except Exception as exc:     # (whatever it is)
            failed.append('%s %s' % (kind, type(exc).__name__))
        armed[:] = []
    with sut.code('fit and run after a failure'):
        same = bool(rng.random() < .3) and failed and \
            failed[-1] == 'report Stop'
        eng.fit(*mine.fit_args(), ghi=mine.ghi)
        if same and not fast:    # the run is repeated without a fit
            try:
                run(eng, stop)
            except Stop:
                mon.hit('failed-run-repeated')
        run(eng)
        got = _qinc_all(eng.pvarray)
    mon.close(got, want, TOL, 'after-failure', 'an earlier failure changes '
              'the results', scale=compare.scale_of(scn), failed=str(failed))
    mon.hit('after-failure', bool(failed))


def copies(scn, rng, row, mon):
    """A copy of an engine has nothing in common with the original."""
    fast = bool(rng.random() < .4)

    def run(eng):
        if fast:
            eng.run_fast_mode(pvrow_index=row)
        else:
            eng.run_full_mode()
        return _qinc(eng.pvarray)
    mine, other = sut.Inputs(scn), other_inputs(
        scn, rng, len(scn['t']['zen']) if rng.random() < .5 else None)
    early = bool(rng.random() < .5)
    with sut.code('copies of an engine'):
        one = sut.build_engine(scn)
        if early:
            two = copy.deepcopy(one)
        one.fit(*mine.fit_args(), ghi=mine.ghi)
        want = run(one)
        one.fit(*mine.fit_args(), ghi=mine.ghi)
        if not early:
            two = copy.deepcopy(one)
            three = run(copy.deepcopy(one))
        two.fit(*other.fit_args(), ghi=other.ghi)
        run(two)
        got = run(one)
    mon.close(got, want, TOL, 'copied-engine', 'the copy of an engine changes '
              'the original', scale=compare.scale_of(scn))
    if not early:
        mon.close(three, want, TOL, 'copied-engine', 'the copy of a fitted '
                  'engine is not like the original',
                  scale=compare.scale_of(scn))
    mon.hit('copied-engine')


def _run(eng, inp, row):
    """Both modes, and what they leave."""
    eng.fit(*inp.fit_args(), ghi=inp.ghi)
    if row is None:
        eng.run_full_mode()
        return [_qinc(eng.pvarray)]
    eng.run_fast_mode(pvrow_index=row)
    fast = _qinc(eng.pvarray)
    eng.run_full_mode()
    return [fast, _qinc(eng.pvarray)]


def threads(scn, rng, row, mon):
    """Separate engines that run at the same time in threads."""
    n = len(scn['t']['zen'])
    jobs = [(scn, sut.Inputs(scn), row)]
    for k in range(2):
        other = scn if k else dict(scn, irr=dict(
            scn['irr'], rho_front=.21, rho_back=.33))
        jobs.append((other, other_inputs(other, rng,
                                         n if rng.random() < .7 else None),
                     row if k else None))
    with sut.code('engines one after the other'):
        want = [_run(sut.build_engine(s), i, r) for s, i, r in jobs]
        engs = [sut.build_engine(s) for s, i, r in jobs]
    got, log = [None] * len(jobs), []
    gate = threading.Barrier(len(jobs))

    def work(k):
        def seen(frame, event, arg):
            if event == 'call' and 'pvfactors' in frame.f_code.co_filename:
                log.append(k)
        gate.wait()
        sys.setprofile(seen)
        try:
            got[k] = _run(engs[k], jobs[k][1], jobs[k][2])
        except Exception as e:
            got[k] = e
        finally:
            sys.setprofile(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        crew = [threading.Thread(target=work, args=(k,))
                for k in range(len(jobs))]
        for t in crew:
            t.start()
        for t in crew:
            t.join()
    finally:
        sys.setswitchinterval(old)
    log = np.array(log)
    mon.hit('thread-switches', int((log[1:] != log[:-1]).sum()))
    mon.sig('interleaving', hash(log.tobytes()))
    mon.hit('threads')
    for k, (s, i, r) in enumerate(jobs):
        if not mon.ok(not isinstance(got[k], Exception), 'threads',
                      'an engine in a thread fails: %r' % (got[k],)):
            continue
        sc = compare.scale_of(s).max()
        for x, y in zip(got[k], want[k]):
            mon.close(x, y, TOL, 'threads', 'engines that run at the same '
                      'time in threads influence each other', scale=sc)


def reentrant(scn, rng, row, mon):
    """What the functions of the user do when they are called (here: use
    other engines) does not change what they are called for."""
    other = dict(scn, vf={}, irr={'model': scn['irr']['model']})
    busy = {'n': 0, 'in': False, 'every': int(rng.integers(1, 9))}
    two, inp = sut.build_engine(other), other_inputs(
        other, rng, len(scn['t']['zen']) if rng.random() < .7 else None)
    base = make_faoi({'kind': 'power', 'c': .9, 'k': 4.})

    def nosy(angles):
        busy['n'] += 1
        if busy['on'] and not busy['in'] and busy['n'] % busy['every'] == 0:
            busy['in'] = True
            two.fit(*inp.fit_args(), ghi=inp.ghi)
            two.run_full_mode()
            busy['in'] = False
            mon.hit('reentered')
        return base(angles)

    def report(arr):
        if busy['on']:
            two.fit(*inp.fit_args(), ghi=inp.ghi)
            two.run_full_mode()
            mon.hit('reentered')
        return _qinc(arr)
    mine, res = sut.Inputs(scn), []
    for on in (False, True):
        busy.update(on=on, n=0)
        with sut.code('functions that use other engines'):
            fns = dict(faoi_fn_front=nosy, faoi_fn_back=nosy)
            kw = {k: x for k, x in sut.irr_kwargs(scn['irr']).items()
                  if not k.startswith('faoi')}
            eng = sut.PVEngine.with_rho_initialization(
                sut.OrderedPVArray.init_from_dict(
                    sut.array_params(scn['arr'])),
                vf_calculator=sut.VFCalculator(
                    n_aoi_integral_sections=20, **fns),
                irradiance_model=sut.irr_class(scn['irr'])(**fns, **kw))
            eng.fit(*mine.fit_args(), ghi=mine.ghi)
            res.append([eng.run_fast_mode(report, pvrow_index=row),
                        eng.run_full_mode(report), _qinc(eng.pvarray)])
    for x, y in zip(*res):
        mon.close(y, x, TOL, 'reentrant', 'other engines that are used by the '
                  'functions of the user change the results',
                  scale=compare.scale_of(scn).max())


def sut_fit(eng, inp):
    with sut.code('engine.fit'):
        eng.fit(*inp.fit_args(), ghi=inp.ghi)


# what measured series contain: what a tracker, a pyranometer and a solar
# position give at night, missing values, values out of the usual range
ODD = [('zen', lambda r, n: r.uniform(91., 178., n)),
       ('ghi', lambda r, n: -r.uniform(.1, 6., n)),
       ('dhi', lambda r, n: -r.uniform(.1, 6., n)),
       ('dni', lambda r, n: -r.uniform(.1, 6., n)),
       ('azi', lambda r, n: r.uniform(-360., 0., n)),
       ('saz', lambda r, n: r.uniform(360., 720., n)),
       ('tilt', lambda r, n: r.choice([0., 180., 90., 1e-9], n)),
       ('alb', lambda r, n: r.choice([0., 1., 1.2, 1e-9], n)),
       ('dni', lambda r, n: np.full(n, np.nan)),
       ('dhi', lambda r, n: np.full(n, np.nan)),
       ('ghi', lambda r, n: np.full(n, np.nan)),
       ('alb', lambda r, n: np.full(n, np.nan)),
       ('tilt', lambda r, n: np.full(n, np.nan)),
       ('dni', lambda r, n: r.uniform(1500., 5000., n)),
       ('ghi', lambda r, n: np.zeros(n))]


def odd_inputs(scn, rng, row, mon):
    """The series of the user stay as they are, whatever is in them (what
    the code makes of them is judged elsewhere)."""
    names = ('zen', 'azi', 'tilt', 'saz', 'dni', 'dhi', 'alb', 'ghi')
    for _ in range(2):
        inp = other_inputs(scn, rng, int(rng.integers(2, 8)))
        if inp.ghi is None:
            inp.ghi = rng.uniform(0., 900., inp.n)
        night_too = rng.random() < .5
        picks = [ODD[int(i)] for i in rng.choice(len(ODD), size=4)]
        if night_too:       # (offsets of sensors show at night)
            picks = [ODD[0], ODD[1]] + picks[:2]
        where = rng.random(inp.n) < .5
        where[int(rng.integers(0, inp.n))] = True
        for nm, f in picks:
            x = getattr(inp, nm)
            at = where if night_too else rng.random(inp.n) < .5
            x[at] = f(rng, int(at.sum()))
        kept = [np.array(getattr(inp, nm), copy=True) for nm in names]
        stamps = pd.DatetimeIndex(inp.ts).copy()
        eng = sut.build_engine(scn)
        with np.errstate(all='ignore'):
            for step in (lambda: eng.fit(*inp.fit_args(), ghi=inp.ghi),
                         eng.run_full_mode,
                         lambda: eng.run_fast_mode(pvrow_index=row)):
                try:
                    step()
                except Exception:
                    break
        for nm, x in zip(names, kept):
            mon.ok(np.array_equal(getattr(inp, nm), x, equal_nan=True),
                   'inputs-unchanged', 'input %s was changed' % nm,
                   got=getattr(inp, nm).tolist(), want=x.tolist(),
                   odd=[q[0] for q in picks])
        mon.ok(pd.DatetimeIndex(inp.ts).equals(stamps), 'inputs-unchanged',
               'timestamps were changed')
        mon.hit('odd-inputs')


def other_inputs(scn, rng, m=None):
    if m is None:
        m = (len(scn['t']['zen']) if rng.random() < .4
             else int(rng.integers(1, 12)))
    t = night(gen_times(rng, scn['arr'], m, max_zenith=89.), rng)
    return sut.Inputs(dict(scn, t=t))


def night(t, rng):
    """Some steps of a history are unusable (sun down, no light)."""
    if rng.random() < .5:
        for i in range(len(t['zen'])):
            u = rng.random()
            if u < .2:
                t['zen'][i] = float(rng.uniform(90.5, 150.))
            elif u < .4:
                t['dni'][i] = t['dhi'][i] = 0.
    return t


def part_inputs(scn, rng, keys):
    n = len(scn['t']['zen'])
    t = night(gen_times(rng, scn['arr'], n, max_zenith=89.), rng)
    new = dict(scn['t'])
    for k in keys:
        new[k] = ([float(x) for x in rng.uniform(50, 900, n)] if k == 'ghi'
                  else t[k])
    return sut.Inputs(dict(scn, t=new))


def apply_op(eng, op, scn, rng, row, mon, n):
    with sut.code('history operation ' + op):
        if op == 'fit':
            inp = other_inputs(scn, rng)
            mon.hit('longer-first', inp.n > n)
            mon.hit('shorter-first', inp.n < n)
            g = rng.uniform(100, 900, inp.n) if rng.random() < .5 else None
            eng.fit(*inp.fit_args(), ghi=g)
        elif op.startswith('part'):
            k = (int(op.split(':')[1]) if ':' in op
                 else int(rng.integers(0, len(PARTS))))
            inp = part_inputs(scn, rng, PARTS[k])
            mon.hit('partial-refit')
            mon.hit('same-length', inp.n == n)
            eng.fit(*inp.fit_args(), ghi=inp.ghi)
            if rng.random() < .6:
                eng.run_full_mode()
        elif op == 'fitscalar':
            mon.hit('scalar-first')
            inp = other_inputs(scn, rng, 1)
            eng.fit(inp.ts[0].to_pydatetime(), *[
                float(x[0]) for x in (inp.dni, inp.dhi, inp.zen, inp.azi,
                                      inp.tilt, inp.saz)], float(inp.alb[0]))
        elif op == 'full':
            eng.run_full_mode()
        elif op == 'fast':
            eng.run_fast_mode(pvrow_index=row)
        elif op == 'matrix':
            eng.vf_calculator.build_ts_vf_matrix(eng.pvarray)
        elif op == 'report':
            for r in eng.pvarray.ts_pvrows:
                r.front.get_param_weighted('direct')
                r.back.get_param_ww('direct')
        elif op == 'at':
            k = int(rng.integers(0, eng.n_points))
            eng.pvarray.ts_ground.at(k)
            for r in eng.pvarray.ts_pvrows:
                r.at(k)
