#!/usr/bin/env python3
"""Runs the check of one property: symbolic execution of the real code, replay of every
counterexample against the real code, evidence.

usage: check.py Cxx [quick|thorough]        check.py --build
exit 0: held on everything explored; 1: violation; 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
WORKERS = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import jobs as J  # noqa: E402


class Broken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- build

def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = []
        if os.path.isfile(top):
            files = [top]
        else:
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'build'))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            h.update(b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo_env(target, flags=''):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',):
            del e[k]
    e.pop('RUSTC_WRAPPER', None)
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTFLAGS=flags)
    e['RUST_BACKTRACE'] = '0'
    return e


def step(name, cmd, cwd, env):
    p = run(cmd, cwd=cwd, env=env)
    if p.returncode != 0:
        raise Broken('build step %s failed:\n%s' % (name, p.stdout[-6000:]))


def build():
    """Builds the executor, the LLVM IR of (harness + /repo) and the native replay binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        harness = os.path.join(ROOT, 'harness')
        want = tree_hash([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(harness, 'src'), os.path.join(harness, 'Cargo.toml')])
        stamp = os.path.join(BUILD, 'stamp')
        ir, native, eng = (os.path.join(BUILD, x) for x in ('ir', 'native', 'engine'))
        ll = os.path.join(ir, 'release', 'deps', 'harness.ll')
        replay = os.path.join(native, 'debug', 'replay')
        llsym = os.path.join(eng, 'release', 'llsym')
        have = open(stamp).read() if os.path.exists(stamp) else ''
        fresh = have == want and os.path.exists(ll) and os.path.exists(replay)
        if not fresh:
            # never trust time stamps: forget the products of another version of the sources
            if os.path.exists(stamp):
                os.remove(stamp)
            for d, rel in ((ir, ['--release']), (native, [])):
                if os.path.isdir(d):
                    run(['cargo', 'clean', '--offline', '-p', 'netcdf3', '-p', 'harness'] + rel, cwd=harness, env=cargo_env(d))
            if os.path.exists(ll):
                os.remove(ll)
        todo = [('engine', ['cargo', 'build', '--release', '--offline'], os.path.join(ROOT, 'engine'), cargo_env(eng))]
        if not fresh:
            todo.append(('ir', ['cargo', 'rustc', '--lib', '--crate-type', 'cdylib', '--release', '--offline', '--', '--emit=llvm-ir'], harness, cargo_env(ir, '-C no-vectorize-loops -C no-vectorize-slp')))
            todo.append(('native', ['cargo', 'build', '--offline', '--bin', 'replay'], harness, cargo_env(native)))
        with ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(step, *t) for t in todo]:
                f.result()
        for f in (ll, replay, llsym):
            if not os.path.exists(f):
                raise Broken('missing build product ' + f)
        if not fresh:
            with open(stamp, 'w') as fh:
                fh.write(want)
        # private copies: another check may rebuild while this one runs
        tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)
        out = {}
        for k, f in (('ll', ll), ('replay', replay), ('llsym', llsym)):
            out[k] = os.path.join(tmp, os.path.basename(f))
            try:
                os.link(f, out[k])
            except OSError:
                shutil.copy(f, out[k])
        out['tmp'] = tmp
        out['source'] = want
        return out


# ---------------------------------------------------------------- replay

def replay_text(entry, param, values, note=''):
    return '%sentry %s\nparam %d\nvalues %s\n' % (note, entry, param, ' '.join(str(v) for _, v in values))


def native(B, text, limit=20):
    """Runs the native replay; returns (output lines, outcome)."""
    d = tempfile.mkdtemp(prefix='replay-', dir=B['tmp'])
    try:
        f = os.path.join(d, 'input.txt')
        with open(f, 'w') as fh:
            fh.write(text)
        w = os.path.join(d, 'files')
        os.mkdir(w)
        env = {'REPLAY_DIR': w, 'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'}
        try:
            p = subprocess.run(['bash', '-c', 'ulimit -f 268435456; exec "$0" "$1"', B['replay'], f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, env=env)
            lines = p.stdout.splitlines()
            return lines, ('end' if lines and lines[-1] == 'END' else 'exit %d' % p.returncode)
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b''
            out = out.decode(errors='replace') if isinstance(out, bytes) else out
            return out.splitlines(), 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def failures(lines, outcome):
    """What went wrong natively, as labels."""
    o = []
    for l in lines:
        if l.startswith('CHECK-FAIL '):
            o.append(l[11:])
        elif l.startswith('PANIC '):
            o.append('panic@' + l.split()[1])
        elif l.startswith('HUGE-ALLOC'):
            o.append('huge-alloc')
    if outcome == 'timeout':
        o.append('hang')
    elif outcome != 'end' and not any(l.startswith(('PANIC', 'HUGE', 'ASSUME-FAIL')) for l in lines):
        o.append('abort')
    return o


# ---------------------------------------------------------------- findings

def known(prop):
    r = {}
    f = os.path.join(ROOT, 'known-findings.txt')
    for l in open(f):
        m = re.match(r'known: property=(\S+) label=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3).strip()
    return r


# ---------------------------------------------------------------- main

def clean_name(n):
    m = re.search(r'::h[0-9a-f]{16}$', n)
    return n[:m.start()] if m else n


def demangle(names):
    o = set()
    for n in names:
        if n.startswith('_ZN'):
            parts, i = [], 3
            while i < len(n) and n[i].isdigit():
                j = i
                while n[j].isdigit():
                    j += 1
                k = int(n[i:j])
                parts.append(n[j:j + k])
                i = j + k
            if parts and re.fullmatch(r'h[0-9a-f]{16}', parts[-1]):
                parts.pop()
            s = '::'.join(parts)
            for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('$u5b$', '['), ('$u5d$', ']'), ('$LP$', '('), ('$RP$', ')'), ('$BP$', '*'), ('$u7b$', '{'), ('$u7d$', '}'), ('..', '::')):
                s = s.replace(a, b)
            o.add(s)
        elif n.startswith('_R'):
            m = re.findall(r'(?<=\d)[A-Za-z_][A-Za-z0-9_]*', n)
            o.add(n)
        else:
            o.add(n)
    return sorted(o)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = J.PROPS[prop]
        # jobs known to take long go first
        f = os.path.join(ROOT, 'tools', 'times.json')
        times = json.load(open(f)) if os.path.exists(f) else {}
        self.jobs = sorted(self.spec['jobs'](tier), key=lambda j: -times.get('%s %s %d' % (tier, j[0], j[1]), 0))
        self.known = known(prop)
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.results, self.seen_known, self.found, self.unconfirmed, self.problems = [], {}, [], [], []
        self.validated = self.mismatch = 0
        self.trace_samples = []
        self.procs = set()
        self.own = re.compile(self.spec['own']) if 'own' in self.spec else None
        self.ignored = {}
        self.budget = self.spec.get('budget', {}).get(tier, 300 if tier == 'quick' else 2400)

    def job(self, j):
        if self.stop.is_set():
            return
        entry, param = j[0], j[1]
        opt = j[2] if len(j) > 2 else {}
        left = self.start + self.budget - time.time()
        if left < 3:
            with self.lock:
                self.problems.append('not started (time): %s %d' % (entry, param))
            return
        left = min(left, 150 if self.tier == 'quick' else 1200)
        out = os.path.join(self.B['tmp'], '%s-%d.json' % (entry, param))
        cmd = [self.B['llsym'], self.B['ll'], entry, str(param), '--out', out, '--time', str(int(left)), '--steps', str(opt.get('steps', self.spec.get('steps', 50_000_000))), '--seed', str(SEED),
               '--traces', '6' if self.tier == 'quick' else '12', '--timeout-ms', '20000' if self.tier == 'quick' else '120000', '--dump-every', str(opt.get('dump', 97 if self.tier == 'quick' else 151))]
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            with self.lock:
                self.procs.add(p)
            try:
                _, err = p.communicate(timeout=left + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                err = 'timeout'
            with self.lock:
                self.procs.discard(p)
            if self.stop.is_set():
                return
            if p.returncode != 0 or not os.path.exists(out):
                with self.lock:
                    self.problems.append('executor failed on %s %d: exit %s %s' % (entry, param, p.returncode, (err or '')[-400:]))
                return
            d = json.load(open(out))
            os.remove(out)
            self.take(entry, param, d)
        except Exception as e:  # noqa: BLE001
            with self.lock:
                self.problems.append('%s %d: %r' % (entry, param, e))

    def mine(self, label):
        """Entries shared with other properties also carry their assertions."""
        return self.own is None or self.own.match(label) is not None

    def take(self, entry, param, d):
        for v in d['violations']:
            if not self.mine(v['label']):
                with self.lock:
                    self.ignored[v['label']] = self.ignored.get(v['label'], 0) + 1
                continue
            if v['label'] in self.known:
                with self.lock:
                    c = self.seen_known.get(v['label'])
                if c is None:
                    lines, oc = native(self.B, replay_text(entry, param, v['values']))
                    ok = v['label'] in failures(lines, oc)
                    with self.lock:
                        if ok:
                            self.seen_known[v['label']] = (entry, param, v['values'])
                        else:
                            self.unconfirmed.append((entry, param, v))
                continue
            lines, oc = native(self.B, replay_text(entry, param, v['values']), 6 if v['kind'] == 'hang' else 20)
            got = [l for l in failures(lines, oc) if l not in self.known and self.mine(l)]
            with self.lock:
                if got:
                    self.found.append((entry, param, v, got))
                else:
                    self.unconfirmed.append((entry, param, v))
            if got:
                self.stop.set()
                with self.lock:
                    for p in self.procs:
                        p.kill()
                return
        # sampled paths of the symbolic run must behave identically natively
        bad_labels = {v['label'] for v in d['violations']}
        for t in d['traces']:
            if self.stop.is_set():
                break
            lines, oc = native(self.B, replay_text(entry, param, t['values']))
            em = [l[5:] for l in lines if l.startswith('EMIT')]
            em = [e.strip() for e in em]
            fl = [x for x in failures(lines, oc) if x not in self.known and x not in bad_labels]
            ok = (oc == 'end' or oc != 'timeout' and any(not self.mine(x) for x in bad_labels)) and not fl and em == [e for e in t['emits']]
            with self.lock:
                if ok:
                    self.validated += 1
                    if len(self.trace_samples) < 6:
                        self.trace_samples.append({'entry': entry, 'param': param, 'values': [x for _, x in t['values']][:64], 'observed': (t['emits'] or [''])[-1][:160]})
                else:
                    self.mismatch += 1
                    self.problems.append('native run of a sampled path differs: %s %d values %s: %s %s' % (entry, param, [x for _, x in t['values']], oc, fl or 'different output'))
        with self.lock:
            self.results.append(d)

    def cross(self):
        """A sample of the solver's queries, decided again by other solvers."""
        qs = []
        for d in self.results:
            for q, r in d['dumps']:
                if r in ('Sat', 'Unsat'):
                    qs.append((q, r))
        qs.sort(key=lambda x: hashlib.sha256((str(SEED) + x[0]).encode()).hexdigest())
        qs = qs[:16 if self.tier == 'quick' else 80]
        agree, no_answer, differ = 0, 0, []

        def one(t):
            q, r = t
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=self.B['tmp'], delete=False)
            if '(check-sat)' not in q:
                q += '\n(check-sat)\n'
            f.write('(set-logic QF_BV)\n' + q)
            f.close()
            o = []
            for cmd in (['cvc5', '--tlimit=10000', f.name], ['z3-new', '-T:10', f.name]):
                p = run(cmd)
                a = p.stdout.strip().splitlines()
                o.append('error' if '(error' in p.stdout else (a[-1] if a else ''))
            os.remove(f.name)
            return r.lower(), o, f.name
        with ThreadPoolExecutor(WORKERS) as ex:
            for r, o, _ in ex.map(one, qs):
                for a in o:
                    if a == r:
                        agree += 1
                    elif a in ('sat', 'unsat'):
                        differ.append((r, a))
                    else:
                        no_answer += 1
        if differ:
            self.problems.append('solvers disagree: %s' % differ)
        return {'queries_sampled': len(qs), 'answers_agreeing': agree, 'no_answer': no_answer, 'disagreeing': len(differ)}

    def main(self):
        self.B = build()
        t_build = time.time() - T0
        self.start = time.time()
        try:
            with ThreadPoolExecutor(WORKERS) as ex:
                list(ex.map(self.job, self.jobs))
            cross = {} if self.found else self.cross()
            return self.report(t_build, cross)
        finally:
            shutil.rmtree(self.B['tmp'], ignore_errors=True)

    def report(self, t_build, cross):
        R = self.results
        tot = lambda k: sum(d[k] for d in R)  # noqa: E731
        reached, expected, concretised = {}, set(), {}
        fns, stubs, errors = set(), set(), []
        for d in R:
            for k, v in d['reached'].items():
                reached[k] = reached.get(k, 0) + v
            expected |= set(d['expected'])
            for k, v in d['concretised'].items():
                concretised[k] = concretised.get(k, 0) + v
            fns |= set(d['functions'])
            stubs |= set(d['stubs'])
            errors += ['%s %s: %s' % (d['entry'], d['params'], e) for e in d['errors']]
        missing = sorted(e for e in expected | set(self.spec.get('expect', [])) if not reached.get(e))
        # not explored: beyond the time budget, or not decided by the solver within its time limit
        undecided = lambda e: 'time budget' in e or 'solver gave no answer' in e  # noqa: E731
        budget = [e for e in errors if undecided(e)] + [p for p in self.problems if p.startswith('not started')]
        hard = [e for e in errors if not undecided(e)] + [p for p in self.problems if not p.startswith('not started')]
        dm = demangle(fns)
        crate = [f for f in dm if 'netcdf3' in f]
        labels = {k: v for k, v in reached.items()}
        cov = {
            'states': tot('steps'), 'transitions': tot('forks') + tot('paths') + tot('cut_paths'), 'traces_validated_against_impl': self.validated,
            'samples': self.trace_samples or ['none'],
            'meaning': 'states: symbolic instruction states executed; transitions: path-condition branches taken (forks and path ends)',
            'jobs': len(R), 'jobs_planned': len(self.jobs), 'paths_complete': tot('paths'), 'paths_infeasible_by_assumption': tot('cut_paths'), 'forks': tot('forks'),
            'assertions_evaluated': tot('checks'), 'assertions_decided_by_term_normalisation': tot('checks') - tot('checks_solved'), 'assertions_decided_by_solver_query': tot('checks_solved'),
            'solver_queries': tot('queries'), 'solver_cache_hits': tot('cache_hits'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 3), 'slowest_query_seconds': max([d['slowest_query_s'] for d in R] or [0]), 'solver': R[0]['solver'] if R else '',
            'cross_checked': cross, 'assertions': labels, 'concretised': concretised,
            'functions_encoded': len(dm), 'functions_of_the_crate': crate[:400], 'environment_stubs': sorted(stubs),
            'bounds': self.spec['bounds'](self.tier) if callable(self.spec['bounds']) else self.spec['bounds'], 'outside': self.spec['outside'],
            'assertions_of_other_properties_failing': self.ignored,
            'incomplete': budget + hard, 'witnesses_missing': missing, 'exhaustive': not budget and not hard and not missing,
            'build_seconds': round(t_build, 1), 'source_sha256': self.B['source'],
        }
        viol = []
        rdir = os.path.join(BUILD, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (entry, param, v, got) in enumerate(self.found):
            f = os.path.join(rdir, '%s-%d.txt' % (self.prop, n))
            note = '# property %s: %s\n# %s\n# natively: %s\n# run: %s/replay.sh FILE\n' % (self.prop, v['label'], v['detail'].replace('\n', ' '), ', '.join(got), ROOT)
            with open(f, 'w') as fh:
                fh.write(replay_text(entry, param, v['values'], note))
            viol.append((v['label'], f, v['detail']))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - T0, 1), 'violations': len(viol),
            'assumptions': J.ASSUMPTIONS + self.spec.get('assumptions', []),
            'known_findings': sorted(self.seen_known),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        f = os.path.join(ROOT, 'evidence', self.prop + '.json')
        with open(f + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(f + '.tmp', f)
        print('%s %s: %d jobs, %d paths, %d assertions (%d solver queries, %.1f s), %d sampled paths replayed natively, %.0f s' % (
            self.prop, self.tier, len(R), tot('paths'), tot('checks'), tot('queries'), tot('solver_s'), self.validated, time.time() - T0))
        if os.environ.get('VERIF_SLOW'):
            for d in sorted(R, key=lambda d: -d['wall_s'])[:12]:
                print('slow: %s %s %.0f s, solver %.0f s' % (d['entry'], d['params'], d['wall_s'], d['solver_s']))
        if os.environ.get('VERIF_TIMES'):
            # maintenance only: remember which jobs take long
            f = os.path.join(ROOT, 'tools', 'times.json')
            t = json.load(open(f)) if os.path.exists(f) else {}
            for d in R:
                k = '%s %s %s' % (self.tier, d['entry'], d['params'][0] if isinstance(d['params'], list) else d['params'])
                t.pop(k, None)
                if d['wall_s'] >= 4:
                    t[k] = round(d['wall_s'])
            with open(f, 'w') as fh:
                json.dump(t, fh, indent=0, sort_keys=True)
        for l in sorted(self.seen_known):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, l, self.known[l]))
        for e in (budget + hard)[:12]:
            print('incomplete: ' + e[:600])
        if viol:
            for l, f, det in viol:
                print('%s: %s' % (l, det[:700]))
                print('VIOLATION property=%s replay=%s' % (self.prop, f))
            return 1
        for entry, param, v in self.unconfirmed[:5]:
            print('unconfirmed counterexample: %s %d %s %s values %s' % (entry, param, v['label'], v['detail'][:300], [x for _, x in v['values']]))
        if self.unconfirmed or hard:
            return 2
        if missing and not budget:
            print('vacuous: never reached: ' + ', '.join(missing))
            return 2
        return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        b = build()
        shutil.rmtree(b['tmp'], ignore_errors=True)
        print('built in %.0f s' % (time.time() - T0))
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return Check(prop, tier).main()


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as e:
        print(str(e))
        rc = 2
    sys.exit(rc)
