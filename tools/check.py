#!/usr/bin/env python3
"""Decides one property by seeded simulation of /repo's current tree.

  check.py C07              search (VERIF_SEED, VERIF_TIER=quick|thorough), write evidence/C07.json
  check.py --replay FILE    run a replay file again, with its trace

Exit 0: no violation.  Exit 1: a line "VIOLATION property=<id> replay=<path>".  Anything else: no answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POWSIM_REPO', '/repo')

# per check: runs in the quick and the thorough tier, worker processes
PLAN = {
    'C01': (3000, 60000, 8), 'C02': (5000, 100000, 8), 'C03': (6000, 120000, 8), 'C04': (2000, 30000, 8),
    'C05': (1200, 16000, 8), 'C06': (4000, 60000, 8), 'C07': (6000, 120000, 8), 'C08': (6000, 120000, 8),
    'C09': (5000, 100000, 8), 'C10': (4000, 80000, 8), 'C11': (4000, 80000, 8), 'C12': (4000, 80000, 8),
    'C13': (5000, 100000, 8), 'C14': (5000, 100000, 8), 'C15': (6000, 120000, 8), 'C16': (6000, 120000, 8),
    'C17': (3000, 60000, 8), 'C18': (400, 6000, 6), 'C19': (5000, 100000, 8), 'C20': (2000, 30000, 8),
    'C21': (2500, 40000, 8), 'C22': (3000, 60000, 8),
    'C28': (2500, 60000, 8), 'C29': (1500, 30000, 8),
}
RACE = {'C29'}  # decided on a build with race detection
LEVEL = 'exploration'

RULE = ('Every run draws a workload (clients, parameters, tasks, calls, prepared files, restarts) and then every scheduling '
        'choice and fault from one seed. A run counts as non-trivial if at least one preemption, fault or prepared file occurred, '
        'and as distinct if the hash of its complete event log (calls, switches, operations, faults) is new.')
ASSUME = [
    'Tasks interleave at statement boundaries and at operations of the simulated packages, one at a time (sequentially consistent memory); compiler and hardware reordering of racy accesses is not simulated.',
    'The simulated disk follows POSIX semantics with a page cache; data survives a power loss per 512-byte block, names per directory operation.',
    'Reference digests come from a frozen sequential copy of the pure algorithms, checked against the published test vectors (tools/refcheck.sh).',
    'Exploration by seeds: absence of violations holds for the runs made, not for all schedules.',
]
REAL = ['powkit: all packages, from the current tree (ethash, kawpow, firopow, octopus, equihash, beamhashiii, cuckoo, eaglesong, heavyhash, autolykos2, internal/*, cmd/gen-lookup)',
        'Go runtime, garbage collector and reachability', 'real memory mappings with real page protection', 'golang.org/x/crypto and other algorithm dependencies']
STUB = ['os, io/ioutil, path/filepath, syscall, x/sys/unix, mmap-go: simulated disk and processes', 'sync, sync/atomic, go statements: simulated scheduler',
        'time: simulated clock', 'math/rand, crypto/rand: seeded', 'runtime.SetFinalizer/GC/GOMAXPROCS, os/user, log: simulated']
EXTRA = {
    'C18': {'REAL': 'sizes, tables, bookkeeping, lookups and digests of the shipped coins at real sizes', 'STUB': 'contents of main caches of real size (zeros); small versions generate real contents'},
}


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    for k in ('GOFLAGS', 'GODEBUG', 'GOGC', 'GOMEMLIMIT', 'GOMAXPROCS'):
        e.pop(k, None)
    return e


def build(work, check):
    p = subprocess.run(['bash', HERE + '/tools/build.sh', work, REPO] + (['race'] if check in RACE else []), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        print('check.py: the instrumented tree does not build')
        sys.exit(2)
    return p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ''


def start(work, job, tag):
    f = os.path.join(work, 'job-%s.json' % tag)
    job = dict(job, out=os.path.join(work, 'out-%s.json' % tag), sites=work + '/o/sites.json', progress=os.path.join(work, 'at-%s' % tag))
    with open(f, 'w') as h:
        json.dump(job, h)
    d = os.path.join(work, 'cwd-' + tag)
    os.makedirs(d, exist_ok=True)
    log = open(os.path.join(work, 'log-' + tag), 'w')
    p = subprocess.Popen([work + '/sim.test', '-test.run', '^TestSim$', '-test.timeout', '0'], env=dict(env(), POWSIM_JOB=f, POWSIM_RACELOG=work + '/race-' + tag,
                         GORACE='log_path=%s/race-%s halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=7' % (work, tag)), cwd=d,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return dict(p=p, job=job, log=log.name, tag=tag)


def finish(w, deadline):
    try:
        w['p'].wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(w['p'].pid, signal.SIGKILL)
        w['p'].wait()
        return None, 'timeout'
    try:
        with open(w['job']['out']) as h:
            return json.load(h), ''
    except (OSError, ValueError):
        with open(w['log']) as h:
            return None, h.read()


def known(check):
    """Listed findings of the property: lines 'known: {json}' in known_findings.txt."""
    out = []
    try:
        with open(HERE + '/known_findings.txt') as h:
            for l in h:
                if l.startswith('known: '):
                    k = json.loads(l[7:])
                    if k['property'] == check:
                        out.append(k)
    except OSError:
        pass
    return out


def crashed(text):
    m = re.search(r'^(fatal error: .*|runtime: goroutine stack exceeds.*|unexpected fault address.*|SIG[A-Z]+: .*|panic: .*)$', text, re.M)
    return m.group(1) if m else None


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    check = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick, thorough, workers = PLAN[check]
    runs = thorough if tier == 'thorough' else quick
    runs = int(os.environ.get('POWSIM_RUNS', runs))
    budget = 5400 if tier == 'thorough' else 420
    t0 = time.time()
    os.makedirs(HERE + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix='powsim-')
    try:
        return search(check, tier, seed, runs, workers, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(check, tier, seed, runs, workers, budget, work, t0):
    built = build(work, check)
    build_s = time.time() - t0
    kn = known(check)
    base = dict(mode='search', check=check, base=seed, To=runs, step=workers, budget=budget, known=kn, min_time=25)
    ws = [start(work, dict(base, From=k), str(k)) for k in range(workers)]
    deadline = time.time() + budget + 120
    reps, bad, crash, errors = [], [], [], []
    while ws:
        live = []
        for w in ws:
            if w['p'].poll() is None and time.time() < deadline:
                live.append(w)
                continue
            rep, text = finish(w, deadline)
            if rep is None:
                crash.append((w, text))
                continue
            reps.append(rep)
            if rep.get('violation'):
                bad.append(rep['violation'])
            if rep.get('unsupported'):
                errors.append('unsupported: ' + rep['unsupported'])
        ws = live
        if ws and (bad or crash):
            # one answer is enough; let the others finish if they are about to
            stop = time.time() + 2
            while time.time() < stop and any(w['p'].poll() is None for w in ws):
                time.sleep(0.05)
            for w in ws:
                if w['p'].poll() is None:
                    os.killpg(w['p'].pid, signal.SIGKILL)
                    w['p'].wait()
                else:
                    rep, text = finish(w, deadline)
                    if rep:
                        reps.append(rep)
                        if rep.get('violation'):
                            bad.append(rep['violation'])
            ws = []
        time.sleep(0.02)
    search_s = time.time() - t0 - build_s

    rdir = HERE + '/replays'
    shown = None
    for v in bad:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (check, seed, v['seed_number']))
        with open(path, 'w') as h:
            json.dump(v, h, indent=1)
        r = rerun(work, path, 'replay%d' % v['seed_number'])
        if not (r and r.get('violation')):
            # not from the minimised file: the whole run of that seed, in a process of its own
            w = start(work, dict(base, From=v['seed_number'], To=v['seed_number'] + 1, step=1), 'again%d' % v['seed_number'])
            rep, text = finish(w, time.time() + 300)
            if not (rep and rep.get('violation')):
                errors.append('the violation of seed %d was not reproduced' % v['seed_number'])
                continue
            v = rep['violation']
            with open(path, 'w') as h:
                json.dump(v, h, indent=1)
            r = rerun(work, path, 'replay2%d' % v['seed_number'])
        shown = (v, path, bool(r and r.get('reproduced')))
        break
    if not shown:
        for w, text in crash:
            what = crashed(text)
            if text == 'timeout' or not what:
                errors.append('a worker ended without an answer: %s' % text[-2000:])
                continue
            try:
                with open(w['job']['progress']) as h:
                    no = int(h.read())
            except (OSError, ValueError):
                errors.append('a worker ended without an answer: %s' % text[-2000:])
                continue
            w2 = start(work, dict(base, From=no, To=no + 1, step=1), 'crash%d' % no)
            rep, text2 = finish(w2, time.time() + 300)
            if rep and rep.get('violation'):
                what = None
                v = rep['violation']
            elif rep is None and crashed(text2) == what and 'verifharness' not in top(text2):
                v = dict(property=check, **{'class': 'crash'}, message='the process died: ' + what, seed=seed, seed_number=no, mode='crash', trace=text2.splitlines()[:80])
            else:
                errors.append('seed %d: a worker died: %s' % (no, text[-2000:]))
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d-%d.json' % (check, seed, no))
            with open(path, 'w') as h:
                json.dump(v, h, indent=1)
            shown = (v, path, True)
            break

    evidence(check, tier, seed, runs, workers, reps, built, build_s, search_s, t0, shown, errors, kn)
    hits = {}
    for r in reps:
        for k, n in (r.get('known_hits') or {}).items():
            hits[int(k)] = hits.get(int(k), 0) + n
    for k, f in enumerate(kn):
        print('KNOWN-FINDING: property=%s %s (%d of the runs)' % (check, f.get('what', f['match']), hits.get(k, 0)))
    if shown:
        v, path, exact = shown
        print('%s: %s' % (v['class'], v['message']))
        print('seed %d, run %d; %d deviations before minimising, %d after; replay %s' % (seed, v['seed_number'], v.get('deviations_before_minimising', 0), len(v.get('plan') or []),
              'reproduces it exactly' if exact else 'reproduces the violation, with another log'))
        print('VIOLATION property=%s replay=%s' % (check, path))
        return 1
    if errors:
        for e in errors[:4]:
            print('check.py: ' + e)
        return 2
    n = sum(r['runs'] for r in reps)
    print('%s: property held in %d runs (%s), %.0f s' % (check, n, built, time.time() - t0))
    return 0


def top(text):
    """The first function of the repository or the harness on the stack."""
    for l in text.splitlines():
        if 'github.com/sencha-dev/powkit' in l:
            return l
    return 'verifharness'


def rerun(work, path, tag):
    w = start(work, dict(mode='replay', replay=path), tag)
    rep, _ = finish(w, time.time() + 300)
    return rep


def evidence(check, tier, seed, runs, workers, reps, built, build_s, search_s, t0, shown, errors, kn):
    def total(k):
        return sum(r.get(k) or 0 for r in reps)

    def merged(k):
        m = {}
        for r in reps:
            for a, b in (r.get(k) or {}).items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    inter, distinct = set(), set()
    samples, nondet = [], []
    for r in reps:
        inter.update(r.get('inter') or [])
        distinct.update(r.get('distinct') or [])
        samples += r.get('samples') or []
        nondet += r.get('nondet') or []
    n = total('runs')
    reached = set()
    for r in reps:
        reached.update(r.get('reached') or [])
    if os.environ.get('POWSIM_REACHED'):
        with open(os.environ['POWSIM_REACHED'], 'w') as h:
            h.write('\n'.join(sorted(reached)) + '\n')
    cov = dict(
        evaluations=n, distinct_nontrivial=len(distinct), rule=RULE, samples=samples[:8] or ['none'],
        seeds='base seed %d, run numbers 0..%d' % (seed, runs - 1),
        runs_per_hour=int(n / max(search_s, 0.1) * 3600),
        worker_processes=workers,
        simulated_time_s=round(total('sim_ns') / 1e9, 3),
        scheduling_points_passed=total('steps'), task_switches=total('switches'), deviations_recorded=total('devs'),
        library_calls=total('calls'),
        distinct_interleavings=len(inter), statements_reached=len(reached),
        interleaving_measure='hash of the sequence of (task, point) of all switches of a run',
        runs_with_faults_or_prepared_files=total('faulty_runs'),
        faults_and_events=merged('counts'), probes=merged('probes'),
        determinism=dict(runs_repeated=total('determinism_checked'), different=len(nondet)),
        leaked_runs=total('leaked'), most_steps_in_a_run=max([r.get('peak_steps') or 0 for r in reps] or [0]), most_storage_operations_in_a_call=max([r.get('peak_ops') or 0 for r in reps] or [0]), stopped_early=any(r.get('stopped') for r in reps),
        real_components=REAL + ([EXTRA[check]['REAL']] if check in EXTRA else []),
        simulated_components=STUB + ([EXTRA[check]['STUB']] if check in EXTRA else []),
        instrumented=built, build_s=round(build_s, 1), search_s=round(search_s, 1),
        known_findings=len(kn), errors=errors[:4])
    if shown:
        cov['violation'] = dict(message=shown[0]['message'], replay=os.path.relpath(shown[1], HERE), reproduced_exactly=shown[2])
    e = dict(property=check, tier=tier, seed=seed, level=LEVEL, coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=1 if shown else 0)
    with open(HERE + '/evidence/%s.json' % check, 'w') as h:
        json.dump(e, h, indent=1)


def replay(path):
    with open(path) as h:
        v = json.load(h)
    work = tempfile.mkdtemp(prefix='powsim-')
    try:
        build(work, v['property'])
        if v.get('mode') == 'crash':
            w = start(work, dict(mode='search', check=v['property'], base=v['seed'], From=v['seed_number'], To=v['seed_number'] + 1, step=1, budget=300, known=[]), 'r')
            rep, text = finish(w, time.time() + 300)
            print(text[-3000:] if rep is None else 'no crash')
            return 1 if rep is None else 0
        w = start(work, dict(mode='replay', replay=os.path.abspath(path), trace=True), 'r')
        rep, text = finish(w, time.time() + 300)
        with open(w['log']) as h:
            print(h.read())
        if rep and rep.get('violation'):
            print('%s: %s%s' % (rep['violation']['class'], rep['violation']['message'], '' if rep['reproduced'] else ' (with another log)'))
            return 1
        print('not reproduced')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
