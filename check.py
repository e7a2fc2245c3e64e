#!/usr/bin/env python3
"""check.py ID quick|thorough   decide property ID on /repo's current tree
   check.py setup               build the engine and the harness
   check.py replay FILE         run a reported counterexample natively
See DESIGN.md."""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, time, threading, queue

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ELINOR_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
ENGINE = os.path.join(VERIF, 'engine')
LL = os.path.join(TARGET, 'release', 'deps', 'harness.ll')
LIB = os.path.join(TARGET, 'release', 'libharness.so')
# the command line tools: property -> binaries, built apart from the library harness
TOOLS = {'C26': ['convert', 'evaluate'], 'C27': ['compare']}
CLI = os.path.join(VERIF, 'cli')
CLI_TARGET = os.path.join(BUILD, 'cli')
GEN = os.path.join(CLI, 'gen')
RUSTFLAGS = {'RUSTFLAGS': '-C no-vectorize-loops -C no-vectorize-slp'}
ELSYM = os.path.join(BUILD, 'engine', 'release', 'elsym')
REPLAYER = os.path.join(BUILD, 'engine', 'release', 'replayer')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def files_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            names = [root]
        else:
            names = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                names += [os.path.join(d, f) for f in sorted(fs)]
        for n in names:
            try:
                with open(n, 'rb') as f:
                    b = f.read()
            except OSError:
                continue
            h.update(n.encode() + b'\0' + str(len(b)).encode() + b'\0' + b)
    return h.hexdigest()


def cargo(args, cwd, target, extra=None):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', **(extra or {}))
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def outputs(pid):
    """The module and the library of a property's harness."""
    if pid in TOOLS:
        return os.path.join(CLI_TARGET, pid + '.ll'), os.path.join(CLI_TARGET, 'lib%s.so' % pid)
    return LL, LIB


def build_tools(pid):
    """The harness of a property of the command line tools, from their current sources."""
    ll, lib = outputs(pid)
    src = os.path.join(REPO, 'elinor-cli', 'src')
    stamp = os.path.join(BUILD, pid + '.stamp')
    want = files_hash([os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'elinor-cli')] +
                      [os.path.join(CLI, x) for x in ('src', 'stubs', 'Cargo.toml', 'Cargo.lock')] +
                      [os.path.join(VERIF, x) for x in ('vendor', 'harness/src/es.rs', 'check.py')])
    if os.path.exists(ll) and os.path.exists(lib) and read(stamp) == want:
        return True, ''
    for f in (stamp, ll, lib):
        if os.path.exists(f):
            os.remove(f)
    if os.path.isdir(GEN):
        shutil.rmtree(GEN)
    shutil.copytree(src, GEN)
    for b in ('convert', 'evaluate', 'compare'):
        p = os.path.join(GEN, 'bin', b + '.rs')
        main = os.path.join(GEN, 'bin', b, 'main.rs')
        if not os.path.exists(p) and os.path.exists(main):
            p = main
        text = read(p)
        if text is None:
            continue
        # the entry point, reached from the harness
        write(os.path.join(GEN, 'bin', b + '.rs'), text + '\npub fn es_main() -> bool { crate::Outcome::ok(main()) }\n')
    if os.path.isdir(os.path.join(CLI_TARGET, 'release')):
        cargo(['clean', '--release', '--offline'] + [y for x in ('elinor', 'cli', 'rand', 'statrs', 'vstd', 'polars', 'polars-lazy', 'anyhow',
                                                                  'prettytable-rs', 'clap') for y in ('-p', x)],
              CLI, CLI_TARGET, RUSTFLAGS)
    rc, out = cargo(['rustc', '--release', '--offline', '--no-default-features', '--features', ','.join(TOOLS[pid]), '--',
                     '--emit=llvm-ir'], CLI, CLI_TARGET, RUSTFLAGS)
    made = os.path.join(CLI_TARGET, 'release', 'deps', 'cli.ll')
    if rc or not os.path.exists(made):
        return False, 'the harness of the command line tools does not build against /repo:\n' + out[-3000:]
    os.replace(made, ll)
    shutil.copy(os.path.join(CLI_TARGET, 'release', 'libcli.so'), lib)
    write(stamp, want)
    return True, ''


def build(pid=None):
    """(ok, message)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, 'engine.stamp')
        want = files_hash([os.path.join(ENGINE, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs')])
        if not (os.path.exists(ELSYM) and os.path.exists(REPLAYER) and read(stamp) == want):
            rc, out = cargo(['build', '--release', '--offline'], ENGINE, os.path.join(BUILD, 'engine'))
            if rc:
                return False, 'the engine does not build:\n' + out[-3000:]
            write(stamp, want)
        if pid in TOOLS:
            return build_tools(pid)
        stamp = os.path.join(BUILD, 'harness.stamp')
        want = files_hash([os.path.join(REPO, x) for x in ('src', 'Cargo.toml')] +
                          [os.path.join(VERIF, x) for x in
                           ('harness/src', 'harness/Cargo.toml', 'harness/Cargo.lock', 'vendor')])
        if not (os.path.exists(LL) and os.path.exists(LIB) and read(stamp) == want):
            for f in (stamp, LL):
                if os.path.exists(f):
                    os.remove(f)
            h = os.path.join(VERIF, 'harness')
            flags = RUSTFLAGS
            if os.path.isdir(os.path.join(TARGET, 'release')):
                # never trust time stamps of copied trees
                cargo(['clean', '--release', '--offline', '-p', 'elinor', '-p', 'harness', '-p', 'rand', '-p', 'statrs'],
                      h, TARGET, flags)
            rc, out = cargo(['rustc', '--release', '--offline', '--', '--emit=llvm-ir'], h, TARGET, flags)
            if rc or not os.path.exists(LL):
                return False, 'the harness does not build against /repo:\n' + out[-3000:]
            write(stamp, want)
    return True, ''


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return None


def write(p, s):
    with open(p + '.tmp', 'w') as f:
        f.write(s)
    os.replace(p + '.tmp', p)


def run_elsym(pid, job, timeout, deadline, procs):
    """One exploration: its result as a dictionary; None when it did not end."""
    timeout = max(1, min(timeout, deadline - time.time()))
    out = os.path.join(BUILD, 'out', '%d_%d.json' % (os.getpid(), threading.get_ident()))
    if os.path.exists(out):
        os.remove(out)
    ll, lib = outputs(pid)
    cmd = [ELSYM, '--ll', ll, '--lib', lib, '--replayer', REPLAYER, '--fn', job.fn, '--case', str(job.case),
           '--params', ','.join(map(str, job.params)), '--timeout', str(int(timeout)), '--out', out,
           '--src-root', '%s/,%s/' % (REPO, GEN), '--validate', '1500']
    if job.steps:
        cmd += ['--max-steps', str(job.steps)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         env=dict(os.environ, RUST_BACKTRACE='0'))
    procs.add(p)
    try:
        # exploration stops by itself; the rest is validation against the compiled library
        _, err = p.communicate(timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        err = 'killed after %d s' % (timeout + 60)
    procs.discard(p)
    try:
        with open(out) as f:
            r = json.load(f)
        os.remove(out)
    except (OSError, ValueError):
        r = {'error': 'no result: ' + err.strip()[-300:]}
    return r


def known_findings(pid):
    """finding lines: `finding: property=ID key=KEY fn=FN kind=panic|assertion message=MESSAGE`; FN explores just the inputs
    that are known to fail. An assertion must fail with that very message; for a panic the message describes it."""
    r = []
    for line in (read(KNOWN) or '').splitlines():
        if line.startswith('finding: property=%s ' % pid):
            f, msg = line[len('finding: '):].split(' message=', 1)
            d = dict(x.split('=', 1) for x in f.split())
            d['message'] = msg.strip()
            r.append(d)
    return r


NUM = ['paths', 'pruned', 'steps', 'forks', 'decisions', 'checks', 'checks_sym', 'queries', 'sat', 'unsat', 'unknown',
       'cache_hits', 'validated', 'diverged']


def check(pid, tier):
    from jobs import PROPS
    t0 = time.time()
    spec = PROPS[pid]
    ok, msg = build(pid)
    if not ok:
        print(msg)
        print('ERROR property=%s: nothing could be checked' % pid)
        return 2
    built = time.time() - t0
    deadline = t0 + (780 if tier == 'quick' else float(os.environ.get('ELINOR_BUDGET', 3600)))
    jobs = [j for j in spec['jobs'] if j.tier == 'q' or tier == 'thorough']
    os.makedirs(os.path.join(BUILD, 'out'), exist_ok=True)
    times = json.loads(read(os.path.join(VERIF, 'times.json')) or '{}')
    order = sorted(range(len(jobs)), key=lambda i: -times.get(jobs[i].key(), 1.0))
    q = queue.Queue()
    for i in order:
        q.put(i)
    results = [None] * len(jobs)
    procs = set()
    stop = threading.Event()
    known = known_findings(pid)

    def worker():
        while not stop.is_set():
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            j = jobs[i]
            if time.time() > deadline - 5:
                results[i] = {'error': 'not started: out of time'}
                continue
            tj = time.time()
            r = run_elsym(pid, j, j.timeout, deadline - 60, procs)
            if stop.is_set() and r.get('error'):
                return
            r['wall'] = time.time() - tj
            results[i] = r
            if [v for v in r.get('violations', []) if not is_known(j, v, known)]:
                stop.set()
                for p in list(procs):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass

    ths = [threading.Thread(target=worker) for _ in range(int(os.environ.get('ELINOR_PROCS', os.cpu_count() or 4)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return report(pid, tier, spec, jobs, results, known, t0, built)


def source(f):
    """A source file's name in /repo."""
    return 'elinor-cli/src/' + os.path.relpath(f, GEN) if f.startswith(GEN + '/') else os.path.relpath(f, REPO)


def is_known(j, v, known):
    return any(matches(k, j, v) for k in known)


def matches(k, j, v):
    return k['fn'] == j.fn and k['kind'] == v['kind'] and (k['kind'] == 'panic' or k['message'] == v['msg'])


def report(pid, tier, spec, jobs, results, known, t0, built):
    tot = dict.fromkeys(NUM, 0)
    solver = maxq = 0.0
    cover_src, ran, notes, incomplete, errors, reals = {}, [], [], [], [], 0
    violations, found = [], set()
    samples = []
    for j, r in zip(jobs, results):
        if r is None:
            continue
        if 'paths' not in r:
            incomplete.append('%s: %s' % (j.key(), r.get('error')))
            errors.append(j.key())
            continue
        for n in NUM:
            tot[n] += r[n]
        solver += r['solver_time']
        maxq = max(maxq, r['max_query'])
        for f, fs in r['source'].items():
            for fn, ls in fs.items():
                cover_src.setdefault(source(f), {}).setdefault(fn, set()).update(x for x in ls if x)
        new = 0
        for v in r['violations']:
            if is_known(j, v, known):
                found.update(k['key'] for k in known if matches(k, j, v))
            else:
                new += 1
                violations.append((j, v))
        ended = r['exhausted'] or bool(r['violations'])
        if not ended:
            incomplete.append('%s: %d paths explored, %s' % (j.key(), r['paths'], '; '.join(r['errors'][:2]) or 'not exhausted'))
        elif r['errors']:
            incomplete.append('%s: paths outside the encoding: %s' % (j.key(), '; '.join(r['errors'][:2])))
        for u in r['unreproduced'][:2]:
            incomplete.append('%s: candidate not confirmed natively: %s' % (j.key(), u['msg']))
        for m in r['mismatches'][:2]:
            errors.append('%s: the executor and the compiled code differ: %s' % (j.key(), m))
        if r['paths'] == 0 and not r['violations']:
            errors.append(j.key() + ': no path was explored')
        ran.append(dict(run=j.key(), paths=r['paths'], assertions=r['checks'], queries=r['queries'],
                        solver_s=round(r['solver_time'], 2), wall_s=round(r.get('wall', 0), 1),
                        complete=bool(ended and not r['errors']), reached=r['covers'], outside_bounds=r['bounded'],
                        validated=r['validated']))
        if r['samples'] and len(samples) < 12:
            samples.append('%s inputs: %s' % (j.key(), r['samples'][-1][:200]))
    nfun = sum(len(x) for x in cover_src.values())
    cov = dict(states=tot['paths'], transitions=tot['decisions'] + tot['forks'],
               traces_validated_against_impl=tot['validated'], samples=samples,
               rule='states: program paths enumerated by the symbolic executor, each for all inputs that take it; transitions: '
                    'symbolic branch decisions; traces validated: models of explored paths replayed on the compiled library, with equal '
                    'observations',
               functions_encoded=nfun,
               source_encoded={f: {fn: sorted(ls) for fn, ls in sorted(x.items())} for f, x in sorted(cover_src.items())},
               bounds=spec['bounds'], runs=ran, paths_pruned=tot['pruned'], ir_instructions_executed=tot['steps'],
               assertions_checked=tot['checks'], assertions_symbolic=tot['checks_sym'],
               queries=tot['queries'], queries_unsat=tot['unsat'], queries_sat=tot['sat'], queries_unknown=tot['unknown'],
               query_cache_hits=tot['cache_hits'], solver_s=round(solver, 2), max_query_s=round(maxq, 3),
               solver=' / '.join(solver_versions()), build_s=round(built, 1), not_explored=incomplete,
               models_not_comparable=tot['diverged'])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
              assumptions=spec['assume'] + COMMON, wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    write(os.path.join(VERIF, 'evidence', pid + '.json'), json.dumps(ev, indent=1))
    for k in known:
        if k['key'] in found:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['message']))
    for m in incomplete:
        print('INCOMPLETE ' + m)
    for m in errors:
        print('ERROR ' + m)
    print('%s %s: %d runs, %d paths, %d assertions, %d queries (%.1f s in the solver), %d models validated natively, %d functions '
          'of /repo encoded, %.1f s' % (pid, tier, len(ran), tot['paths'], tot['checks'], tot['queries'], solver,
                                           tot['validated'], nfun, time.time() - t0))
    if violations:
        j, v = violations[0]
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        write(path, json.dumps(dict(property=pid, fn=j.fn, case=j.case, params=j.params, tape=v['tape'], message=v['msg'],
                                    kind=v['kind'], native=v['native'],
                                    how='python3 /verif/check.py replay ' + path), indent=1))
        print('%s: %s; inputs: %s' % (j.key(), v['msg'], v['tape'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not ran or all('no path' in e for e in errors) and len(errors) == len(jobs):
        return 2
    if any('differ' in e for e in errors):
        return 2
    return 0


COMMON = [
    'The harness links the whole of /repo/src (and, for the command line tools, elinor-cli/src); the standard library and the dependencies are executed symbolically with it, except rand '
    '(nondeterministic draws) and the distribution functions of statrs (contracts), which are replaced by the stand-ins in /verif/vendor.',
    'Trusted: rustc up to LLVM IR, the executor in /verif/engine, z3. Every reported counterexample and a sample of the models of the explored paths is '
    'replayed on the natively compiled library.',
]


def solver_versions():
    r = []
    for b in ('z3', 'z3-new'):
        try:
            r.append(subprocess.run([b, '--version'], capture_output=True, text=True, timeout=20).stdout.strip().split(' - ')[0])
        except (OSError, subprocess.SubprocessError):
            pass
    return r


def replay(path):
    d = json.loads(read(path))
    ok, msg = build(d['property'])
    if not ok:
        print(msg)
        return 2
    return subprocess.run([REPLAYER, outputs(d['property'])[1], d['fn'], str(d['case']), ','.join(map(str, d['params'])), d['tape']]).returncode


def main():
    a = sys.argv[1:]
    if a == ['setup']:
        ok, msg = build()
        print(msg or 'built')
        for pid in TOOLS:
            # speeds up their first check, which builds for itself what is missing
            print(pid, *[x or 'built' for x in build(pid)[1:]])
        return 0 if ok else 1
    if len(a) == 2 and a[0] == 'replay':
        return replay(a[1])
    if len(a) == 2 and a[1] in ('quick', 'thorough'):
        return check(a[0], a[1])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
