#!/usr/bin/env python3
"""Driver of the simulated worlds.

  run.py check <property> <quick|thorough>   build from /repo, sweep seeds, report
  run.py replay <file>                       run one replay file again, verbosely
  run.py build                               build every world (setup_cmd)
  run.py determinism [n]                     run n seeds of every profile twice and compare event logs

Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed.
"""
import collections, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')
sys.path.insert(0, HERE)
from checks import CHECKS, WORLDS          # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:handle_abort=0:quarantine_size_mb=8',
           LC_ALL='C', TZ='UTC')


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


# ---------------------------------------------------------------- build
def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def headers():
    r = []
    for d in (REPO + '/dnstable', REPO + '/libmy', REPO + '/src', HERE + '/sim', HERE + '/sim/a', HERE + '/sim/b', HERE + '/sim/c', HERE + '/sim/include'):
        r += glob.glob(d + '/*.h')
    return r


def repo_sources():
    """everything the code in /repo may include, .c files too"""
    r = []
    for d in ('dnstable', 'libmy', 'src'):
        for top, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(top, f) for f in fs if re.search(r'\.(c|h|cc|hh|inc|def|in|sym)$', f)]
    return r


def expand(pats):
    r = []
    for p in pats:
        neg = p.startswith('!')
        g = sorted(glob.glob(p.lstrip('!').replace('@REPO', REPO).replace('@', HERE)))
        if neg:
            r = [x for x in r if x not in g]
        else:
            r += [x for x in g if x not in r]
    return r


def build(world):
    w = WORLDS[world]
    odir = os.path.join(BUILD, world)
    os.makedirs(odir, exist_ok=True)
    hd, rd = digest(headers(), ''), digest(repo_sources(), '')
    jobs, objs, libobjs = [], [], []

    def sub(s):
        return s.replace('@REPO', REPO).replace('@', HERE)

    for grp in w['sources']:
        for src in expand(grp['files']):
            cmd = [grp.get('cc', 'gcc')] + [sub(x) for x in w.get('flags', []) + grp.get('flags', [])]
            key = digest([src], hd + (rd if src.startswith(REPO) else '') + ' '.join(cmd))
            obj = os.path.join(odir, '%s-%s.o' % (re.sub(r'\W', '_', os.path.relpath(src, '/')), key))
            (libobjs if grp.get('archive') else objs).append(obj)
            if not os.path.exists(obj):
                jobs.append((cmd + ['-c', src, '-o', obj + '.tmp'], obj, grp.get('optional')))

    def one(j):
        cmd, obj, optional = j
        r = sh(cmd)
        if r.returncode:
            return None if optional else (cmd, r.stderr)
        os.rename(obj + '.tmp', obj)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, jobs):
            if e:
                raise Broken('compile failed: %s\n%s' % (' '.join(e[0]), e[1][-4000:]))
    libobjs = [o for o in libobjs if os.path.exists(o)]
    exe = os.path.join(odir, 'world-' + hashlib.sha256(' '.join(objs + libobjs + w.get('link', [])).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        ar = []
        if libobjs:
            a = exe + '.a'
            if os.path.exists(a):
                os.unlink(a)
            r = sh(['ar', 'rcs', a] + libobjs)
            if r.returncode:
                raise Broken('ar: ' + r.stderr)
            ar = [a]
        r = sh(['g++'] + objs + ar + [sub(x) for x in w.get('link', [])] + ['-o', exe + '.tmp'])
        if r.returncode:
            raise Broken('link failed: ' + r.stderr[-4000:])
        os.rename(exe + '.tmp', exe)
    # forget objects of earlier trees
    keep = set(objs + libobjs + [exe, exe + '.a'])
    for f in glob.glob(odir + '/*'):
        if f not in keep:
            os.unlink(f)
    return exe


# ---------------------------------------------------------------- run
def exec_plan(exe, profile, lines, verbose=False):
    fd, path = tempfile.mkstemp(prefix='plan', dir=BUILD)
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run([exe, 'exec', profile, path] + (['-v'] if verbose else []), env=ENV, timeout=60,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT if verbose else subprocess.DEVNULL, text=True, errors='replace')
        out = r.stdout
    except subprocess.TimeoutExpired:
        return ('hang-wall', 'no result in 60 s', '0', '')
    finally:
        os.unlink(path)
    if verbose:
        return (None, '', '', out)
    if out.startswith('OK '):
        return (None, '', out.split()[1], out)
    if out.startswith('VIOLATED '):
        f = out[9:].rstrip('\n').split('\t')
        return (f[0], f[1], f[2], out)
    raise Broken('unexpected output of the simulator: ' + out[:500])


def plan_of(exe, profile, seed):
    r = sh([exe, 'plan', profile, str(seed)], env=ENV)
    if r.returncode:
        raise Broken('plan: ' + r.stderr)
    return r.stdout.splitlines()


def sweep(exe, profile, base, count, wall, workers=NCPU):
    tmp = tempfile.mkdtemp(prefix='sweep', dir=BUILD)
    procs = []
    for i in range(workers):
        n = count // workers + (1 if i < count % workers else 0)
        if not n:
            continue
        out = os.path.join(tmp, str(i))
        procs.append((subprocess.Popen([exe, 'sweep', profile, str(base + i), str(n), str(workers), out, str(wall)],
                                       env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    res = dict(runs=0, nontrivial=0, sim_ns=0, states=0, hashes=set(), counters=collections.Counter(), viol=[])
    bad = None
    for p, out in procs:
        try:
            p.wait(timeout=wall + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            bad = 'a worker did not stop'
        if p.returncode:
            bad = bad or 'a worker exited with %s' % p.returncode
        try:
            with open(out, errors='replace') as fh:
                data = fh.read()
        except OSError:
            data = ''
        for line in data.splitlines():
            f = line.split('\t')
            if f[0] == 'H':
                res['hashes'].add(f[1])
            elif f[0] == 'C':
                res['counters'][f[1]] += int(f[2])
            elif f[0] == 'S':
                res['runs'] += int(f[1]); res['nontrivial'] += int(f[2]); res['sim_ns'] += int(f[3]); res['states'] += int(f[4])
            elif f[0] == 'V':
                res['viol'].append((int(f[1]), f[2], f[3] if len(f) > 3 else ''))
    shutil.rmtree(tmp, ignore_errors=True)
    if bad and not res['viol']:
        raise Broken(bad)
    return res


def minimise(exe, profile, lines, cls, budget=45):
    t0 = time.time()

    def fails(ls):
        return exec_plan(exe, profile, ls)[0] == cls

    n = 2
    while len(lines) >= 2 and time.time() - t0 < budget:
        size = max(1, len(lines) // n)
        chunks = [(i, min(i + size, len(lines))) for i in range(0, len(lines), size)]
        cands = [lines[:a] + lines[b:] for a, b in chunks]
        hit = None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i in range(0, len(cands), NCPU):
                batch = cands[i:i + NCPU]
                rs = list(ex.map(fails, batch))
                for c, ok in zip(batch, rs):
                    if ok:
                        hit = c
                        break
                if hit is not None or time.time() - t0 > budget:
                    break
        if hit is not None:
            lines = hit
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(lines), n * 2)
    # drop optional key=value words
    for i in range(len(lines)):
        if time.time() - t0 > budget:
            break
        words = lines[i].split(' ')
        j = len(words) - 1
        while j >= 2 and time.time() - t0 < budget:
            if '=' in words[j]:
                cand = lines[:i] + [' '.join(words[:j] + words[j + 1:])] + lines[i + 1:]
                if fails(cand):
                    words = words[:j] + words[j + 1:]
                    lines = cand
            j -= 1
    return lines


def known():
    """open findings: (property, profile, class, plan file, text)"""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('open:'):
                d = dict(re.findall(r'(\w+)=(\S+)', line.split('|')[0]))
                r.append((d['property'], d['profile'], d['class'], os.path.join(HERE, d['plan']), line.split('|', 1)[1].strip()))
    return r


def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    tot = dict(runs=0, sim_ns=0, states=0, nontrivial=0, hashes=set(), counters=collections.Counter(), viol=[], per={})
    samples = []
    exes = {}
    sweep_s = 0.0
    for k, (world, profile, nq, nt) in enumerate(c['sweeps']):
        exe = exes.get(world) or build(world)
        exes[world] = exe
        base = (seed * 1000003 + 17 + 7919 * int(prop[1:])) % (1 << 40) * 1000000 + 1
        # regression plans: shrunk schedules of past failures, run first
        for f in sorted(glob.glob('%s/regress/%s/*.plan' % (HERE, profile))):
            lines = [l for l in open(f).read().splitlines() if l and not l.startswith('#')]
            cls, msg, _, _ = exec_plan(exe, profile, lines)
            tot['runs'] += 1
            tot['counters']['regression_plans'] += 1
            if cls:
                tot['viol'].append((world, profile, 'file:' + f, cls, msg))
        wall = {'quick': 100, 'thorough': 700}[tier] / len(c['sweeps'])
        s0 = time.time()
        r = sweep(exe, profile, base, nq if tier == 'quick' else nt, wall)
        sweep_s += time.time() - s0
        for x in ('runs', 'sim_ns', 'states', 'nontrivial'):
            tot[x] += r[x]
        tot['hashes'] |= {profile + h for h in r['hashes']}
        tot['counters'] += r['counters']
        tot['per'][profile] = r['runs']
        tot['viol'] += [(world, profile, s, cl, m) for s, cl, m in r['viol']]
        samples.append({'profile': profile, 'seed': base, 'plan': plan_of(exe, profile, base)[:60]})
    findings = []
    for p, profile, cls, plan, text in known():
        if p != prop:
            continue
        world = [w for w, pr, _, _ in c['sweeps'] if pr == profile][0]
        lines = [l for l in open(plan).read().splitlines() if l and not l.startswith('#')]
        got = exec_plan(exes[world], profile, lines)[0]
        if got == cls:
            findings.append(text)
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        elif got:
            tot['viol'].append((world, profile, 'file:' + plan, got, 'known-finding plan fails differently'))
    # every violation is believed only after it fails the same way twice in fresh processes
    confirmed, seen, rejected = [], set(), []
    # the classes that failed, rarest seeds first come first
    for world, profile, s, cls, msg in tot['viol']:
        if cls in seen or len(confirmed) >= 3:
            continue
        exe = exes[world]
        lines = [l for l in open(s[5:]).read().splitlines() if l and not l.startswith('#')] if isinstance(s, str) else plan_of(exe, profile, s)
        a, b = exec_plan(exe, profile, lines), exec_plan(exe, profile, lines)
        if a[0] != cls or b[0] != cls or a[2] != b[2]:
            rejected.append((profile, s, cls, a[0], b[0]))
            continue
        seen.add(cls)
        small = minimise(exe, profile, lines, cls) if not confirmed else lines
        a, b = exec_plan(exe, profile, small), exec_plan(exe, profile, small)
        if a[0] != cls or b[0] != cls or a[2] != b[2]:
            small = lines
            a = exec_plan(exe, profile, small)
        path = os.path.join(REPLAYS, '%s-%s.replay' % (prop, re.sub(r'[^A-Za-z0-9]+', '-', cls)[:60]))
        with open(path, 'w') as f:
            f.write('# property=%s world=%s profile=%s seed=%s class=%s hash=%s\n' % (prop, world, profile, s, cls, a[2]))
            f.write('# %s\n' % a[1])
            f.write('# replay: python3 %s/run.py replay %s\n' % (HERE, path))
            f.write('\n'.join(small) + '\n')
        confirmed.append((path, cls, a[1]))
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(tot['counters'].items())}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(tot['hashes']),
            'rule': c['rule'], 'samples': samples,
            'runs_per_profile': tot['per'],
            'runs_per_hour': int(tot['runs'] / max(sweep_s, 0.01) * 3600),
            'simulated_seconds': round(tot['sim_ns'] / 1e9, 3),
            'distinct_measure': 'distinct hashes of the complete event log (every step, result and simulated time) of non-trivial runs',
            'faults_and_probes': faults,
            'real_components': c['real'], 'stub_components': c['stub'],
        },
        'assumptions': c['assumptions'], 'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    if tot['states']:
        ev['coverage']['schedule_points'] = tot['states']
    if findings:
        ev['coverage']['known_findings'] = findings
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d simulated runs, %d distinct non-trivial, %.1f simulated s, %.1f s' % (prop, tier, tot['runs'], len(tot['hashes']), tot['sim_ns'] / 1e9, wall))
    for path, cls, msg in confirmed:
        print('  %s: %s' % (cls, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if confirmed:
        return 1
    if rejected:
        raise Broken('violations that do not replay: %s' % rejected[:5])
    floor = c.get('floor', 0) if tier == 'quick' else 0
    if tot['runs'] == 0 or len(tot['hashes']) < min(floor, 1):
        raise Broken('nothing was explored')
    return 0


def replay(path):
    text = open(path).read().splitlines()
    d = dict(re.findall(r'(\w+)=(\S+)', text[0]))
    os.makedirs(BUILD, exist_ok=True)
    exe = build(d['world'])
    lines = [l for l in text if l and not l.startswith('#')]
    print(exec_plan(exe, d['profile'], lines, True)[3])
    cls, msg, h, _ = exec_plan(exe, d['profile'], lines)
    if cls:
        print('%s: %s (event log %s)' % (cls, msg, h))
        if cls == d['class'] and h == d['hash']:
            print('reproduced exactly')
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('no violation')
    return 0


def determinism(n):
    os.makedirs(BUILD, exist_ok=True)
    bad = 0
    for world, profile in sorted({(w, p) for c in CHECKS.values() for w, p, _, _ in c['sweeps']}):
        exe = build(world)
        a = sweep(exe, profile, 777, n, 600, 8)
        b = sweep(exe, profile, 777, n, 600, 3)
        same = a['hashes'] == b['hashes'] and a['counters'] == b['counters'] and a['sim_ns'] == b['sim_ns']
        print(profile, 'runs', a['runs'], b['runs'], 'distinct', len(a['hashes']), 'identical' if same else 'DIFFERENT', 'violations', len(a['viol']))
        bad += not same
    return 1 if bad else 0


def main():
    try:
        if sys.argv[1] == 'check':
            return check(sys.argv[2], sys.argv[3])
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        if sys.argv[1] == 'build':
            os.makedirs(BUILD, exist_ok=True)
            for w in WORLDS:
                build(w)
            return 0
        if sys.argv[1] == 'determinism':
            return determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
    except Broken as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
