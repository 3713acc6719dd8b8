#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

  check.py PROPERTY            exit 0: held; exit 1: VIOLATION line printed
  check.py --setup             build the extractor and the engine
  check.py --baseline          rewrite baseline/fns.json from /repo's current tree (maintenance)

1. rustc expands /repo's lib; extract/ copies the functions under contract, verbatim, into one
   Verus file with the contracts of contracts/ spliced in; Verus discharges every obligation.
2. harness/ (compiled against /repo) looks for a concrete failing input of the same property:
   the replay of a failed obligation, and the bounded stand-in for what is not under contract.
See DESIGN.md for how the two are combined.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FOURLEAF_REPO', '/repo')
B = os.path.join(V, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
T0 = time.time()
END = 780 if TIER == 'quick' else 10 ** 6          # a quick check must be over by 900 s


def left(s): return max(20, min(s, END - (time.time() - T0)))
sys.path.insert(0, os.path.join(V, 'bin'))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Lock:
    def __init__(s, n): s.n = n
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(os.path.join(B, s.n + '.lock'), 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                for f in sorted(fs):
                    q = os.path.join(d, f); h.update(q.encode()); h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def run(cmd, cwd=None, env=None, timeout=600, out=None):
    e = dict(os.environ); e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                              stdout=out or subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, -99, x.stdout or b'', (x.stderr or b'') + b'\ntimeout')


def stale(target, h, pat):
    """cargo compares modification times; we compare contents.  Forget what was built from other text."""
    mark = os.path.join(target, 'built-from')
    if os.path.exists(mark) and open(mark).read() == h: return False
    for d, ds, fs in os.walk(target):
        if os.path.basename(d) == '.fingerprint':
            for x in ds:
                if re.match(pat, x): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            ds[:] = []
    return True


def repo_paths(): return [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'src'), os.path.join(REPO, 'build.rs')]


def build_extract():
    with Lock('extract'):
        t = os.path.join(B, 'xt'); h = tree_hash([os.path.join(V, 'extract', 'src'), os.path.join(V, 'extract', 'Cargo.toml')])
        exe = os.path.join(t, 'release', 'extract')
        if not stale(t, h, r'extract-') and os.path.exists(exe): return exe
        r = run(['cargo', 'build', '--release', '--offline', '--target-dir', t], cwd=os.path.join(V, 'extract'))
        if r.returncode != 0: raise RuntimeError('extractor does not build:\n' + r.stderr.decode()[-3000:])
        open(os.path.join(t, 'built-from'), 'w').write(h)
        return exe


def build_engine():
    with Lock('engine'):
        t = os.path.join(B, 'ht'); h = tree_hash([os.path.join(V, 'harness', 'src'), os.path.join(V, 'harness', 'Cargo.toml')] + repo_paths())
        exe = os.path.join(t, 'debug', 'engine')
        if not stale(t, h, r'(fourleaf|engine)-') and os.path.exists(exe): return exe
        r = run(['cargo', 'build', '--offline', '--target-dir', t], cwd=os.path.join(V, 'harness'), env={'RUSTFLAGS': '--cap-lints warn -Awarnings'})
        if r.returncode != 0: raise RuntimeError('engine does not build against the tree:\n' + r.stderr.decode()[-3000:])
        open(os.path.join(t, 'built-from'), 'w').write(h)
        return exe


def expand(dst):
    """The crate after macro expansion; a scratch copy of it carries contracts/sample/msample.rs along, so that what
    the crate's declaration macro produces is part of it."""
    with Lock('expand'):
        for sample in (True, False):
            t = os.path.join(B, 'ex'); stale(t, '', r'fourleaf-')
            c = os.path.join(B, 'ex-src')
            shutil.rmtree(c, ignore_errors=True); os.makedirs(c)
            for f in os.listdir(REPO):
                if f in ('.git', 'target'): continue
                a = os.path.join(REPO, f)
                if os.path.isdir(a): shutil.copytree(a, os.path.join(c, f), symlinks=True)
                else: shutil.copy2(a, os.path.join(c, f))
            if sample:
                shutil.copy2(os.path.join(V, 'contracts', 'sample', 'msample.rs'), os.path.join(c, 'src', 'msample.rs'))
                with open(os.path.join(c, 'src', 'lib.rs'), 'a') as f: f.write('\n#[allow(missing_docs, dead_code)] mod msample;\n')
            with open(dst, 'wb') as f:
                r = run(['cargo', 'rustc', '--lib', '--offline', '--target-dir', t, '--', '-Zunpretty=expanded'], cwd=c,
                        env={'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': '-Awarnings'}, out=f)
            if r.returncode == 0: return
        raise RuntimeError('rustc cannot expand the tree:\n' + r.stderr.decode()[-3000:])


# ---------------------------------------------------------------- deductive part

def verus(gen, modules, rlimit, timeout, opts=()):
    cmd = ['verus', os.path.basename(gen), '--output-json', '--time-expanded', '--multiple-errors', '2', '--rlimit', str(rlimit)] + list(opts)
    for m in modules or []: cmd += ['--verify-only-module', m]
    r = run(cmd + ['--', '--error-format=json'], cwd=os.path.dirname(gen), timeout=timeout)
    diags = []
    for l in r.stderr.decode('utf8', 'replace').splitlines():
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and d.get('spans') is not None and not d['message'].startswith('aborting due'): diags.append(d)
    try: j = json.loads(r.stdout)
    except ValueError: j = None
    return cmd, r, diags, j


PROOF_MSGS = ('not satisfied', 'assertion failed', 'possible arithmetic', 'invariant', 'decreases', 'precondition', 'postcondition', 'possible division',
              'loop must', 'unable to prove', 'possible bit shift', 'failed', 'could not prove', 'termination')


def owner(d, fns):
    """the function whose obligation a diagnostic is about"""
    def fn_at(line):
        best = None
        for k, f in fns.items():
            l = f.get('lines')
            if l and l[0] <= line <= l[1] and (best is None or l[1] - l[0] < best[0]): best = (l[1] - l[0], k)
        return best and best[1]
    sp = d['spans']
    exits = [s for s in sp if (s.get('label') or '').startswith('at ')]
    main = exits or [s for s in sp if s['is_primary'] and 'failed precondition' not in (s.get('label') or '')] or [s for s in sp if 'failed' not in (s.get('label') or '')] or sp
    for s in main:
        k = fn_at(s['line_start'])
        if k: return k
    for s in sp:
        k = fn_at(s['line_start'])
        if k: return k
    return None


def SAFETY(msg):
    """an obligation that excludes overflow, a failing unwrap or index, or non-termination"""
    return any(x in msg for x in ('arithmetic', 'decreases', 'termination', 'division', 'bit shift')) or ('precondition not satisfied' in msg and 'std_specs' in msg)


class Proof:
    pass


class Job:
    """One run of the verifier: the bodies in `keep` (None: all of the modules'), every other function by its contract.
    A `lemmas` job verifies no body of the crate: what it says is recorded, and no verdict rests on it alone."""
    def __init__(s, name, keep, modules, skip=(), drop=(), opts=(), lemmas=False):
        s.name = name; s.keep = keep; s.modules = modules; s.skip = list(skip); s.drop = list(drop); s.opts = list(opts); s.lemmas = lemmas


NLSPLIT = ['--smt-option', 'smt.case_split=0']
PLAIN = r'de::tuple\d+::Deserialize::deserialize_body$'      # the functions first tried with NLSPLIT
TOP = ('adapt', 'retrofit', 'unknown', 'msample')                       # what is written in terms of de
HIGH = ('de',) + TOP
RTV = ('rtv',)                                             # the round-trip lemmas: over contracts only, no body of the crate
WIDE = r'^de::(array|tuple)\d+$'                           # families of impls that nothing else needs ...
NEEDED = {'de::tuple0', 'de::tuple1', 'de::tuple2', 'de::array4', 'de::array16'}  # ... but for these


def shards(fns, base, n):
    """split the high-level modules' functions into n runs of about equal length (milliseconds, roughly)"""
    high = [k for k, f in fns.items() if k.split('::')[0] in HIGH and f['status'] == 'contract']
    top = {k for k in high if k.split('::')[0] in TOP}
    high = [k for k in high if k not in top]
    cost = lambda k: 300 * int(re.match(r'de::tuple(\d+)', k).group(1)) + 70 if re.match(PLAIN, k) else 70
    slow = [k for k in high if re.match(PLAIN, k)]; rest = [k for k in high if not re.match(PLAIN, k)]
    total = sum(map(cost, high)) or 1
    ns = max(1, min(n - 1, round(n * sum(map(cost, slow)) / total))) if slow else 0
    typ = lambda k: '::'.join(k.split('::')[:2])
    types = set(map(typ, high))
    jobs = []
    for grp, cnt, opts in ((slow, ns, NLSPLIT), (rest, n - ns, [])):
        bins = [[0, set()] for _ in range(cnt)]
        units = {}
        for k in grp: units.setdefault(typ(k), []).append(k)
        for u in sorted(units.values(), key=lambda u: (-sum(map(cost, u)), u[0])):
            b = min(bins, key=lambda b: b[0]); b[0] += sum(map(cost, u)); b[1] |= set(u)
        for b in bins:
            if not b[1]: continue
            mods = sorted({k.split('::')[0] for k in b[1]})
            mine = set(map(typ, b[1]))
            jobs.append(Job('high%d' % (len(jobs) + 1), b[1], mods, drop=[t for t in types if re.match(WIDE, t) and t not in mine and t not in NEEDED], opts=opts, skip=TOP + RTV))
    if jobs: jobs[0].modules = jobs[0].modules + ['dspec']
    if top: jobs.append(Job('high%d' % (len(jobs) + 1), top, list(TOP) + ['netspec'], drop=[t for t in types if re.match(WIDE, t) and t not in NEEDED | {'de::tuple4'}]))
    return jobs


def rt_jobs(fns):
    """what is written is read back equal: tuples first, then arrays (the long ones of each only in their own run)"""
    types = {'::'.join(k.split('::')[:2]) for k in fns}
    arr = [t for t in types if re.match(r'^de::array\d+$', t) and t not in ('de::array4', 'de::array16')]
    tup = [t for t in types if re.match(r'^de::tuple\d+$', t) and int(t[9:]) > 5]
    return [Job('rt1', set(), ['rtspec', 'rtv'], skip=('adapt', 'msample'), drop=arr, lemmas=True), Job('rt2', set(), ['rtv'], skip=('adapt', 'msample'), drop=tup, lemmas=True)]


def run_job(job, ext, exp, work, allfns, base, rlimit, timeout, canary):
    p = Proof(); p.job = job; p.failed = {}; p.undecided = {}; p.global_undecided = None; p.rounds = 0; p.obl = {}; p.smt_ms = 0; p.seconds = 0; p.cmd = ''
    p.text = ''; p.verified = 0; p.errors = 0; p.fns = {}
    gen = os.path.join(work, 'gen-%s.rs' % job.name); rep = os.path.join(work, 'gen-%s.json' % job.name)
    assume = set()
    if job.keep is not None: assume = {k for k, f in allfns.items() if f['status'] == 'contract' and k not in job.keep and k.split('::')[0] not in job.skip}
    while True:
        p.rounds += 1
        cmd = [ext, exp, os.path.join(V, 'contracts'), gen, rep]
        if assume: cmd += ['--assume', ','.join(sorted(assume))]
        if job.skip: cmd += ['--skip', ','.join(job.skip)]
        if job.drop: cmd += ['--drop-types', ','.join(job.drop)]
        if canary: cmd += ['--canary']
        r = run(cmd)
        if r.returncode != 0: p.global_undecided = 'extraction: ' + r.stderr.decode()[-500:]; break
        fns = json.load(open(rep))['fns']; p.fns = fns
        t = time.time()
        vcmd, vr, diags, vj = verus(gen, job.modules, rlimit, left(timeout), job.opts)
        p.seconds += time.time() - t
        p.cmd = ' '.join(vcmd)
        open(gen[:-3] + '.out.json', 'wb').write(vr.stdout)
        done = vj is not None and 'verification-results' in vj and 'errors' in vj.get('verification-results', {}) and vj['verification-results'].get('encountered-vir-error') is not True
        vres = vj['verification-results'] if done else {}
        p.text = ''.join((d.get('rendered') or d['message']) for d in diags)
        if done and (vres.get('verified', 0) + vres.get('errors', 0)) > 0:
            break
        # not accepted as input: leave the offending bodies out and check the rest
        bad = set()
        for d in diags:
            k = owner(d, fns)
            if k and fns[k]['status'] == 'contract': bad.add(k)
        bad -= assume
        if not bad or p.rounds > 6 or left(200) < 200:
            p.global_undecided = 'the verifier does not accept the extracted source: ' + '; '.join(d['message'] for d in diags)[:600]
            if vr.returncode == -99: p.global_undecided = 'verifier timeout'
            break
        for k in bad: p.undecided[k] = 'body outside what the verifier accepts: ' + '; '.join(d['message'] for d in diags if owner(d, fns) == k)[:300]
        assume |= bad
    mine = set(job.keep) if job.keep is not None else {k for k, f in allfns.items() if f['status'] == 'contract' and k.split('::')[0] not in job.skip}
    p.mine = mine
    if p.global_undecided:
        for k in mine: p.undecided.setdefault(k, p.global_undecided)
        return p
    p.verified = vres['verified']; p.errors = vres['errors']
    for m in vj['times-ms']['smt'].get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::', 1)[1] if '::' in f['function'] else f['function']
            o = p.obl.setdefault(n, [0, True, 0]); o[0] += 1; o[1] = o[1] and f['success']; o[2] += f['time-micros'] / 1000.0
            p.smt_ms += f['time-micros'] / 1000.0
    newh = [k for k, f in allfns.items() if f['status'] == 'uncontracted' and k not in base['fns']]
    newn = {k.split('::')[-1]: k for k in newh}
    for d in diags:
        k = owner(d, fns); msg = d['message']
        ln = ['%s:%d%s' % (s['file_name'], s['line_start'], (' (' + s['label'] + ')') if s.get('label') else '') for s in d['spans']]
        txt = [t['text'].strip() for s in d['spans'] if 'failed' in (s.get('label') or '') for t in s['text']][:3]
        full = msg + ' [' + ', '.join(ln) + '] ' + ' '.join(txt)
        if k is None:
            p.undecided['?'] = full; continue
        f = fns[k]; b = base['fns'].get(k)
        why = None
        if 'esource limit' in msg or 'rlimit' in msg or 'timed out' in msg: why = 'resource limit'
        elif not any(x in msg for x in PROOF_MSGS): why = 'verifier: ' + msg[:200]
        elif f['status'] != 'contract': why = 'no contract'
        elif b is None: why = 'not in the baseline'
        elif f.get('anchors_lost'): why = 'proof anchors lost: ' + ', '.join(f['anchors_lost'])
        elif f.get('loops') != b.get('loops'): why = 'loops changed: the invariants were written for other loops'
        else:
            h = [newn[c] for c in f.get('callees', []) if c in newn and c not in b.get('callees', [])]
            if h: why = 'calls functions without a contract: ' + ', '.join(h)
        if why: p.undecided.setdefault(k, why + ': ' + full)
        else: p.failed.setdefault(k, []).append(full)
    for k in list(p.undecided):
        p.failed.pop(k, None)
    return p


def prove(prop, work, high, rlimit=30, timeout=300, canary=False, nshards=7, rt=False):
    """Every obligation of the wire / io / stream / ser modules, and with `high` of de and the modules above it.
    Returns a Proof: .failed {fn: [msgs]}, .undecided {fn: why}, ..."""
    base = json.load(open(os.path.join(V, 'baseline', 'fns.json')))
    ext = build_extract()
    exp = os.path.join(work, 'expanded.rs'); expand(exp)
    p = Proof(); p.failed = {}; p.undecided = {}; p.global_undecided = None; p.obl = {}; p.smt_ms = 0; p.cmd = ''; p.text = ''; p.verified = 0; p.errors = 0; p.retried = {}; p.jobs = []; p.lemmas = []
    rep = os.path.join(work, 'gen.json')
    r = run([ext, exp, os.path.join(V, 'contracts'), os.path.join(work, 'gen.rs'), rep])
    p.fns = {}; t0 = time.time()
    if r.returncode != 0: p.global_undecided = 'extraction: ' + r.stderr.decode()[-500:]; p.seconds = 0; return p
    j = json.load(open(rep)); p.fns = j['fns']; p.lost = j['lost']
    jobs = [Job('low', None, None, skip=HIGH + RTV)]
    if rt and not canary: jobs += rt_jobs(p.fns)
    if high: jobs += shards(p.fns, base, nshards)
    out = [None] * len(jobs)

    def one(i):
        try:
            q = run_job(jobs[i], ext, exp, work, p.fns, base, rlimit, timeout, canary); out[i] = q
            todo = [k for k in list(q.failed) + list(q.undecided) if k in q.mine and (k in q.failed or 'resource limit' in q.undecided[k] or 'timeout' in q.undecided[k])]
            if canary or not todo or len(todo) > 40 or left(200) < 200: return
            # the same obligations once more, alone, with the solver's other case-split strategy and more resources
            jb = jobs[i]
            alt = Job(jb.name + 'b', set(todo), sorted({k.split('::')[0] for k in todo}), jb.skip, jb.drop, [] if jb.opts else NLSPLIT)
            a = run_job(alt, ext, exp, work, p.fns, base, rlimit * 2, timeout, canary)
            p.retried.update({k: 'accepted' if k not in a.failed and k not in a.undecided else 'not accepted' for k in todo})
            q.seconds += a.seconds; q.smt_ms += a.smt_ms
            if a.global_undecided: return
            for k in todo:
                if k not in a.failed and k not in a.undecided:
                    q.failed.pop(k, None); q.undecided.pop(k, None)
                elif k in a.failed and k in q.undecided: q.undecided.pop(k); q.failed[k] = a.failed[k]; q.text += a.text
        except Exception as e:
            q = Proof(); q.failed = {}; q.undecided = {k: 'driver: %r' % e for k in (jobs[i].keep or ['?'])}; q.global_undecided = 'driver: %r' % e
            q.obl = {}; q.smt_ms = 0; q.seconds = 0; q.cmd = ''; q.text = ''; q.verified = 0; q.errors = 0
            out[i] = q
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(jobs))]
    for t in ts: t.start()
    for t in ts: t.join()
    for i, q in enumerate(out):
        if jobs[i].lemmas:
            bad = q.global_undecided or '; '.join(list(q.undecided.values()) + [m for v in q.failed.values() for m in v])[:1500]
            p.jobs.append('%s (round-trip lemmas): %s verified, %s errors, %.1fs%s' % (jobs[i].name, q.verified, q.errors, q.seconds, bad and ' - NOT ESTABLISHED: ' + bad))
            p.lemmas.append(dict(run=jobs[i].name, verified=q.verified, errors=q.errors, established=not bad and q.errors == 0, why=bad or ''))
            p.smt_ms += q.smt_ms
            continue
        p.failed.update(q.failed); p.undecided.update(q.undecided); p.smt_ms += q.smt_ms; p.verified += q.verified; p.errors += q.errors; p.text += q.text
        for k, o in q.obl.items(): p.obl.setdefault(k, o)
        if q.global_undecided and (i == 0 or not p.global_undecided): p.global_undecided = q.global_undecided
        p.jobs.append('%s: %s verified, %s errors, %.1fs' % (jobs[i].name, q.verified, q.errors, q.seconds))
    p.cmd = '; '.join(q.cmd for q in out if q.cmd)
    p.seconds = time.time() - t0
    return p


def scan_trusted(gen):
    """every assumption left in the verified text, found mechanically"""
    out = []
    s = open(gen).read().splitlines()
    for i, l in enumerate(s):
        if re.search(r'external_body|assume_specification|\badmit\(|\bassume\(|external_trait_specification|external_type_specification|\baxiom fn|verifier::external\b', l):
            t = l.strip()
            if t.startswith('//'): continue
            if len(t) < 60 and i + 1 < len(s) and 'fn ' not in t: t += ' ' + s[i + 1].strip()
            out.append(t[:160])
    return list(dict.fromkeys(out))


# ---------------------------------------------------------------- engine

def engine(prop, exe, work, seed, mult, budget):
    out = os.path.join(work, 'engine-%d.json' % seed)
    if os.path.exists(out): os.remove(out)
    r = run([exe, 'run', prop, '--seed', str(seed), '--mult', str(mult), '--budget', str(budget), '--threads', str(os.cpu_count() or 4), '--out', out], cwd=work, timeout=budget * 2 + 120)
    o = r.stdout.decode('utf8', 'replace')
    m = re.search(r'(ABORT|HANG) (\d+) (\d+)', o)
    if m: return dict(failure=dict(sub=int(m.group(2)), idx=int(m.group(3)), msg='the process was aborted (stack overflow or allocation failure)' if m.group(1) == 'ABORT' else 'the call does not return'), evaluations=0, distinct=0, subs=[], samples=[], seed=seed)
    if r.returncode in (0, 1) and os.path.exists(out):
        d = json.load(open(out)); d['seed'] = seed; return d
    return dict(error='engine ended with %s: %s' % (r.returncode, (o + r.stderr.decode('utf8', 'replace'))[-800:]), failure=None, evaluations=0, distinct=0, subs=[], samples=[], seed=seed)


def replay(prop, exe, work, f, seed):
    r = run([exe, 'case', prop, str(f['sub']), str(f['idx']), '--seed', str(seed)], cwd=work, timeout=60)
    return r.returncode, (r.stdout.decode('utf8', 'replace') + r.stderr.decode('utf8', 'replace'))[-6000:]


def known():
    p = os.path.join(V, 'known-findings.txt'); k = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'): k.append(l[6:].strip())
    return k


def main(prop):
    import props
    P = props.PROPS[prop]
    work = os.path.join(B, 'work', prop)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work, exist_ok=True)
    res = {}
    errs = {}

    def guard(n, f):
        try: res[n] = f()
        except Exception as e: errs[n] = '%s: %s' % (type(e).__name__, e)

    thorough = TIER == 'thorough'
    mult, budget = (P['thorough'] if thorough else P['quick'])

    def eng():
        exe = build_engine()
        return exe, engine(prop, exe, work, SEED, mult, budget)

    def prf(): return prove(prop, work, P['high'], rlimit=60 if thorough else 30, rt=P.get('rt', False))

    ts = [threading.Thread(target=guard, args=('engine', eng)), threading.Thread(target=guard, args=('proof', prf))]
    for t in ts: t.start()
    for t in ts: t.join()
    for n, e in errs.items(): log(n, 'unavailable:', e)
    pr = res.get('proof'); en = res.get('engine')
    if pr is None and en is None:
        log('neither part could run'); return 2
    base = json.load(open(os.path.join(V, 'baseline', 'fns.json')))
    # C18 is about every function a reader runs, but only about the obligations that exclude panics and endless loops
    has = (lambda k, f: prop in f.get('props', []) or (P.get('safety') and k.split('::')[0] in ('wire', 'io', 'stream') + HIGH)) if pr else None
    mine = [k for k, f in (pr.fns if pr else {}).items() if has(k, f)]
    under = [k for k in mine if pr.fns[k]['status'] == 'contract']
    failed = {k: v for k, v in (pr.failed if pr else {}).items() if has(k, pr.fns[k]) and (not P.get('safety') or any(map(SAFETY, v)))}
    undec = {k: v for k, v in (pr.undecided if pr else {}).items() if k == '?' or has(k, pr.fns.get(k) or {})}
    gone = [k for k, f in base['fns'].items() if pr and has(k, f) and f['status'] == 'contract' and pr and k not in pr.fns]
    for k in gone: undec[k] = 'no longer there under this name'
    runs = [en[1]] if en else []
    # a failed obligation, and no failing input yet: search deeper
    if en and failed and not en[1].get('failure'):
        log('failed obligation(s) in', ', '.join(failed), '- searching for a failing input')
        for i in range(2):
            if left(100) < 100: break
            x = engine(prop, en[0], work, SEED + 1000 + i, P['quick'][0] * 8, 60); runs.append(x)
            if x.get('failure'): break
    if thorough and en and not failed and not en[1].get('failure'):
        for i in range(1, P.get('seeds', 3)):
            x = engine(prop, en[0], work, SEED + 100 * i, mult, budget); runs.append(x)
            if x.get('failure'): break
    canary = None
    if thorough and pr and not pr.global_undecided and not failed:
        c = prove(prop, os.path.join(work), P['high'], canary=True)
        reach = [k for k in under if k in c.failed or k in c.undecided]
        canary = dict(checked=len(under), failing_as_they_must=len(reach), contradictory=[k for k in under if k not in reach])
        log('canary:', canary)
    fail = None
    for x in runs:
        if x.get('failure'):
            code, txt = replay(prop, en[0], work, dict(x['failure'], sub=subname(prop, en[0], x)), x['seed'])
            fail = dict(seed=x['seed'], code=code, text=txt, **x['failure']); fail['sub'] = subname(prop, en[0], x); break
    # ---------------- evidence
    ev_obl = obligations(pr, under)
    evals = sum(x['evaluations'] for x in runs); dist = sum(x['distinct'] for x in runs)
    samples = [s for x in runs for s in x.get('samples', [])][:6]
    gen = os.path.join(work, 'gen.rs')
    trusted = scan_trusted(gen) if pr and os.path.exists(gen) else []
    bad = set(failed) | set(undec)
    disch = [k for k in under if k not in bad]
    cov = dict(
        obligations=len(under) + len([k for k in mine if pr.fns[k]['status'] == 'assumed']) + len(gone) if pr else 0,
        discharged=len(disch),
        checker_cmd=(pr.cmd + '  (in build/work/%s: extracted from /repo by this run)' % prop) if pr else 'unavailable: ' + errs.get('proof', ''),
        trusted_base=P['trusted'] + ['verified text contains: ' + t for t in trusted],
        functions_under_contract=sorted(under), queries=ev_obl['queries'], solver_ms=round(ev_obl['ms'], 1), verifier_seconds=round(pr.seconds, 1) if pr else 0,
        back_end='Verus 0.2026.09.13 / Z3 4.12.5', failed={k: v for k, v in failed.items()}, undecided=undec, verifier_total='%s verified, %s errors' % (getattr(pr, 'verified', 0), getattr(pr, 'errors', 0)) if pr else 'none',
        verifier_runs=pr.jobs if pr else [], round_trip_lemmas=pr.lemmas if pr else [], retried_with_other_strategy=pr.retried if pr else {},
        not_under_contract=P['bounded'],
        bounded=dict(engine_runs=[dict(seed=x['seed'], subs=x['subs'], error=x.get('error')) for x in runs]),
        evaluations=evals, distinct_nontrivial=dist, rule=P['rule'], samples=samples or ['none'],
        exhaustive=bool(runs and runs[0]['subs'] and all(s['exhaustive'] for s in runs[0]['subs'])))
    if canary: cov['canary'] = canary
    if P['level'] == 'other' or 'explanation' in P: cov['explanation'] = P.get('explanation', P['note'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)

    def evidence(n):
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
            json.dump(dict(property=prop, tier=TIER, seed=SEED, level=P['level'], coverage=cov, assumptions=P['assumptions'], wall_s=round(time.time() - T0, 1), violations=n), f, indent=1)
    log('%s: %d functions under contract, %d discharged, %d failed, %d undecided (%s); engine: %d cases, %s' % (
        prop, len(under), len(disch), len(failed), len(undec), (pr.global_undecided or '%d verified in all, %.1fs' % (getattr(pr, 'verified', 0), pr.seconds)) if pr else errs.get('proof'), evals,
        'FAILURE ' + fail['msg'] if fail else 'no failure'))
    for k, v in undec.items(): log('undecided:', k, '-', v[:300])
    for k, v in failed.items(): log('failed obligation:', k, '-', v[0][:500])
    rdir = os.path.join(B, 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + '.json')
    if fail:
        cmd = 'build/ht/debug/engine case %s %s %s --seed %s' % (prop, fail['sub'], fail['idx'], fail['seed'])
        ident = '%s/%s: %s' % (prop, fail['sub'], fail['msg'])
        for k in known():
            if k.startswith('property=%s ' % prop) and k.split(' ', 1)[1] in ident:
                print('KNOWN-FINDING: ' + k); evidence(0); return 0
        json.dump(dict(property=prop, kind='failing input', command='cd /verif && ' + cmd, message=fail['msg'], replayed=fail['text'], replay_exit=fail['code'], failed_obligations=failed), open(rp, 'w'), indent=1)
        print(fail['text']); evidence(1)
        print('VIOLATION property=%s replay=%s' % (prop, rp)); return 1
    if failed:
        json.dump(dict(property=prop, kind='failed obligation', failed_obligations=failed, verifier_output=pr.text[-20000:], searched=[dict(seed=x['seed'], cases=x['evaluations']) for x in runs]), open(rp, 'w'), indent=1)
        evidence(1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); return 1
    evidence(0)
    if not en or en[1].get('error'):
        if en: log('engine:', en[1]['error'])
        # the proof alone can still carry the property
        if pr and not undec and not pr.global_undecided and not P['bounded']: return 0
        log('no verdict'); return 2
    return 0


def subname(prop, exe, x):
    s = x['failure']['sub']
    if isinstance(s, int):
        r = run([exe, 'subs', prop]); n = r.stdout.decode().split()
        return n[s] if s < len(n) else str(s)
    return s


def obligations(pr, under):
    q = 0; ms = 0.0
    if pr:
        names = set(k.split('::')[-1] for k in under)
        for n, o in pr.obl.items():
            if n.split('::')[-1] in names: q += o[0]; ms += o[2]
    return dict(queries=q, ms=ms)


if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        build_extract(); build_engine(); expand(os.path.join(B, 'expanded.rs')); log('built'); sys.exit(0)
    if sys.argv[1:] == ['--baseline']:
        w = os.path.join(B, 'work', 'baseline'); os.makedirs(w, exist_ok=True)
        expand(os.path.join(w, 'expanded.rs'))
        r = run([build_extract(), os.path.join(w, 'expanded.rs'), os.path.join(V, 'contracts'), os.path.join(w, 'gen.rs'), os.path.join(w, 'gen.json')])
        j = json.load(open(os.path.join(w, 'gen.json')))
        assert not j['lost'], j['lost']
        keep = ('status', 'props', 'loops', 'callees', 'sig', 'closures')
        out = dict(fns={k: {a: f[a] for a in keep if a in f} for k, f in sorted(j['fns'].items())})
        json.dump(out, open(os.path.join(V, 'baseline', 'fns.json'), 'w'), indent=0, sort_keys=True)
        log(len(out['fns']), 'functions'); sys.exit(0)
    sys.exit(main(sys.argv[1]))
