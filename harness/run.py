"""Runner: ``python -m harness.run <ID> quick|thorough`` or
``python -m harness.run <ID> replay <file>``.

Exit 0: held on everything explored. Exit 1: violation (one VIOLATION line per
replay file). Exit 2: inconclusive. Exit 3: error of the harness itself."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
WALL = {'quick': 240., 'thorough': 780.}
CASE_TIMEOUT = {'quick': 200, 'thorough': 400}


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def load(cid):
    return importlib.import_module('harness.checks.%s' % cid.lower())


def judge_case(mod, case):
    """Monitor of a case; CodeError becomes a violation."""
    from .core import Mon
    from .sut import CodeError
    mon = Mon()
    try:
        mod.judge(case, mon)
    except CodeError as e:
        mon.fail('code-error', str(e))
    except (TypeError, ValueError, KeyError, IndexError, AttributeError,
            ZeroDivisionError):
        # every other call of the real code is inside ``sut.code``: what it
        # returned cannot be read as what it documents
        mon.fail('malformed-result', traceback.format_exc()[-1500:])
    return mon


def build_case(mod, tier, seed, k, n_corner):
    from .scenario import rng_for
    if k < n_corner:
        return mod.corners(tier)[k]
    return mod.gen(rng_for(seed, mod.ID, k - n_corner), k - n_corner, tier)


def worker(cid, tier, seed, counter, total, n_corner, deadline, out):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        mod = load(cid)
        while True:
            with counter.get_lock():
                k = counter.value
                counter.value += 1
            if k >= total or time.time() > deadline:
                break
            try:
                case = build_case(mod, tier, seed, k, n_corner)
                signal.alarm(CASE_TIMEOUT[tier])
                t_case = time.time()
                try:
                    mon = judge_case(mod, case)
                finally:
                    signal.alarm(0)
                mon.wall = time.time() - t_case
                out.put(('case', k, mon.dump(),
                         case if mon.violations else None))
            except CaseTimeout:
                out.put(('timeout', k, None, None))
            except Exception:
                out.put(('error', k, traceback.format_exc(), None))
        out.put(('done', None, None, None))
    except BaseException:
        out.put(('error', -1, traceback.format_exc(), None))
        out.put(('done', None, None, None))


def shrink(mod, case, rules, budget=20.):
    """Smaller case that still violates one of the rules."""
    t0 = time.time()
    fn = getattr(mod, 'shrink', None)
    if fn is None:
        return case
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in fn(case):
            if time.time() - t0 > budget:
                break
            try:
                mon = judge_case(mod, cand)
            except Exception:
                continue
            if any(v['rule'] in rules for v in mon.violations):
                case, improved = cand, True
                break
    return case


def known_findings(cid):
    """Known (unrepaired) findings of a property: list of dicts with a
    ``match`` description understood by the check's ``is_known``."""
    path = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get('findings', []) if x['property'] == cid]


def main(argv):
    cid, tier = argv[0], argv[1]
    mod = load(cid)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    if tier == 'replay':
        with open(argv[2]) as f:
            rec = json.load(f)
        mon = judge_case(mod, rec['case'])
        for v in mon.violations:
            print(json.dumps(v))
        if mon.violations:
            print('VIOLATION property=%s replay=%s' % (cid, argv[2]))
            return 1
        print('replay: no violation (%d judgements)'
              % sum(mon.events.values()))
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    n_corner = len(mod.corners(tier))
    total = n_corner + int(mod.COUNT[tier]
                           * float(os.environ.get('VERIF_SCALE', '1')))
    n_proc = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    n_proc = max(1, min(n_proc, getattr(mod, 'MAX_JOBS', 64), total))
    deadline = t0 + WALL[tier]
    ctx = mp.get_context('fork')
    counter, out = ctx.Value('i', 0), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(
        cid, tier, seed, counter, total, n_corner, deadline, out))
        for _ in range(n_proc)]
    for p in procs:
        p.start()
    events, classes, worst, sigs = {}, {}, {}, set()
    viol, errors, timeouts, n_cases, done, slow = [], [], [], 0, 0, []
    hard = deadline + CASE_TIMEOUT[tier] + 20
    while done < n_proc:
        try:
            kind, k, payload, case = out.get(timeout=2.)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in procs):
                errors.append('workers died or overran')
                break
            continue
        if kind == 'done':
            done += 1
        elif kind == 'timeout':
            timeouts.append(k)
        elif kind == 'error':
            errors.append('case %s: %s' % (k, payload))
        else:
            n_cases += 1
            slow.append((round(payload['wall'], 2), k))
            for n, v in payload['events'].items():
                events[n] = events.get(n, 0) + v
            for n, v in payload['classes'].items():
                classes[n] = classes.get(n, 0) + v
            sigs.update(payload['sigs'])
            for n, v in payload['worst'].items():
                if n not in worst or v[0] > worst[n][0]:
                    worst[n] = v
            if payload['violations']:
                viol.append((k, payload, case))
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    # ---- verdict
    viol.sort(key=lambda v: v[0])
    findings = known_findings(cid)
    new, known = [], {}
    for k, payload, case in viol:
        hit = None
        for f in findings:
            if getattr(mod, 'is_known', lambda *a: False)(f, case, payload):
                hit = f
                break
        if hit is None:
            new.append((k, payload, case))
        else:
            known.setdefault(hit['id'], []).append(k)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s%s' % (
            cid, f['what'], '' if f['id'] in known
            else ' (not reached in this run)'))
    lines = []
    for k, payload, case in new[:3]:
        rules = {v['rule'] for v in payload['violations']}
        small, seen = case, []
        try:      # (a problem of the shrinking must not hide the violation)
            small = shrink(mod, case, rules)
            seen = judge_case(mod, small).violations
        except Exception:
            traceback.print_exc()
        rec = {'property': cid, 'case': small,
               'violations': seen or payload['violations']}
        text = json.dumps(rec, indent=1, sort_keys=True)
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (
            cid, hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text)
        v = rec['violations'][0]
        print('  case %d: [%s] %s %s' % (k, v['rule'], v['msg'], json.dumps(
            v['data'])[:600]))
        lines.append('VIOLATION property=%s replay=%s' % (
            cid, os.path.relpath(path, ROOT)))
    missing = {c: (classes.get(c, 0), n) for c, n in
               getattr(mod, 'REQUIRED', {}).items()
               if classes.get(c, 0) < .6 * n}
    samples = [build_case(mod, tier, seed, k, n_corner)
               for k in sorted({0, n_corner, total - 1}) if k < total]
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n_cases, 'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': json.loads(json.dumps(samples))[:3],
            'monitor_judgements': events, 'situations_observed': classes,
            'largest_deviation_vs_tolerance': worst,
            'cases_planned': total, 'directed_cases': n_corner,
            'processes': n_proc, 'slowest_cases_s': sorted(slow)[-5:],
            'timeouts': len(timeouts)},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(EVID, '%s.json' % cid), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d cases (%d planned), %d judgements, %d distinct '
          'situations, %.1f s' % (cid, tier, n_cases, total,
                                  sum(events.values()), len(sigs),
                                  time.time() - t0))
    if new:
        for line in lines:
            print(line)
        return 1
    if errors:
        print('HARNESS ERROR: %d\n%s' % (len(errors), errors[0]))
        return 3
    if timeouts or missing or not events:
        print('INCONCLUSIVE: timeouts=%s missing=%s' % (timeouts, missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
