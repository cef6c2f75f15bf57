"""C22: the settings follow from the environment, and messages go where they are
configured to go.  Environments come from spec/EnvGen.tla with the settings that
spec/Env.tla derives from them; histories run under them are judged by the
contract (spec/Heap.tla) under these settings, probes by spec/Env.tla."""
import json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, engine, trace

MUTANTS = ['prefix-of-name', 'no-equals', 'last', 'index-kept']
WORDS = [('banner', r'Copyright'), ('badfree', r'not from DUMA'), ('overlap', r'overlap'), ('mmap', r'mmap|failed|Out of memory'), ('leak', r'not freed|Reported \d+ leak'),
         ('show', r'Allocating|Freeing'), ('align', r'power of 2')]
SIG = {4: 'abort', 11: 'segv'}


def model(check):
    """the look-up of a variable in the environment; wrong variants are refuted"""
    def one(m):
        return engine.tlc(['-workers', '1', '-config', 'EnvMC.cfg', 'EnvMC.tla'], dict(MUTANT=m), 600)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        res = list(ex.map(one, ['none'] + MUTANTS))
    refuted = {}
    for m, (rc, out) in zip(['none'] + MUTANTS, res):
        if m == 'none':
            if rc:
                raise engine.EngineError('the model of the environment does not hold\n' + out[-3000:])
            x = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
            check.cov['states'] += int(x[1])
            check.cov['transitions'] += int(x[0])
        else:
            x = re.search(r'Invariant (\w+) is violated', out)
            if not x:
                raise engine.EngineError('variant %s of the environment model is not refuted\n%s' % (m, out[-2000:]))
            refuted[m] = x.group(1)
    check.notes['environment_model'] = dict(variants_refuted=refuted)


def environments(kind, n, seed):
    rc, out = engine.tlc(['-workers', '1', '-simulate', 'num=1', '-depth', str(14 * n + 100), '-seed', str(seed), '-config', 'EnvGen.cfg', 'EnvGen.tla'],
                         dict(KIND=kind, NUM=n))
    es = [json.loads(json.loads(ln)[4:]) for ln in out.split('\n') if ln.startswith('"ENV ')]
    if rc or not es:
        raise engine.EngineError('generation of environments failed\n' + out[-2000:])
    return es


def launcher():
    exe = os.path.join(build.BUILD, 'envrun')
    os.makedirs(build.BUILD, exist_ok=True)
    build.run(['gcc', '-O1', '-w', '-o', exe, build.VERIF + '/harness/envrun.c'])
    return exe


def environ(entries, extra=()):
    """the generated entries among ordinary ones"""
    base = ['PATH=/usr/bin:/bin', 'LC_ALL=C'] + list(extra)
    k = len(entries) // 2
    es = entries[:k] + base[:1] + entries[k:] + base[1:]
    return b'\0'.join(e.encode() for e in es) + b'\0'


# ------------------------------------------------ histories under environments
FOCI = [('mixall', 30), ('nml', 30), ('zeromix', 30), ('oom', 30), ('churn', 50), ('churn', 60), ('leak', 20)]
HVARIANTS = ['static', 'static', 'static', 'getenv', 'nothread', 'shared', 'nold']


def plain(exe, script, variant, policy):
    """what the same history breaks in the default environment"""
    d, rc = engine.run_scripts(exe, [script], {}, 'n', [policy % 4])
    try:
        return set() if rc else {c for _, _, cl in engine.judge(trace.convert(d + '/trace', trace.config({}, variant))[0]) for c in cl}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def histories(check):
    n = 1200 if check.thorough else 240
    with ThreadPoolExecutor(engine.CPUS) as ex:
        envs_f = ex.submit(environments, 'heap', n, check.seed * 31 + 1)
        got = list(ex.map(lambda f: engine.generate(f[0], f[1], sim=n // 2, seed=check.seed * 1000 + 9), FOCI))
        envs = envs_f.result()
    run = launcher()
    exes = {v: build.harness('seq.cpp', v) for v in sorted(set(HVARIANTS))}
    rnd = random.Random(check.seed * 77)
    work = []
    for i, e in enumerate(envs):
        v = rnd.choice(HVARIANTS)
        work.append((i, e, v, check.adapt([rnd.choice(g[0]) for g in got], v)))

    def one(w):
        i, e, v, scripts = w
        d = tempfile.mkdtemp(dir=engine.tmp(), prefix='e')
        try:
            with open(d + '/scr', 'w') as f:
                for k, s in enumerate(scripts):
                    f.write('S s%d %d\n%s\nE\n' % (k, k % 4, '\n'.join(s)))
            with open(d + '/env', 'wb') as f:
                f.write(environ(e['text']))
            with open(d + '/err', 'a') as fe, open(d + '/out', 'a') as fo:
                rc = subprocess.run([run, d + '/env', exes[v], d + '/scr', d + '/trace', d + '/err', d + '/out'], cwd=d, stdout=fo, stderr=fe,
                                    stdin=subprocess.DEVNULL, timeout=300).returncode
            if rc:
                return w, None, 'program ended with %d: %s' % (rc, open(d + '/err', errors='replace').read()[-300:])
            cfg = trace.config({}, v, {k: x for k, x in e['c'].items() if k not in ('noatexit', 'overlap', 'nobanner', 'out', 'err', 'file')})
            return w, trace.convert(d + '/trace', cfg, hbase=0)[0], None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        done = list(ex.map(one, work))
    shards = [[] for _ in range(engine.CPUS)]
    nev = nh = 0
    where = {}
    for k, (w, ev, err) in enumerate(done):
        if err:
            check.viol.append((['C22:' + err], dict(kind='environment', clauses=[err], script=[], entries=w[1]['text'], variant=w[2], event={})))
            continue
        for x in ev:
            hh = w[0] * 10 + x['h']
            if x['op'] == 'begin':
                nh += 1
                where[hh] = (w, x['h'] - 1)
            shards[k % engine.CPUS].append(dict(x, h=hh))
        nev += len(ev)

    def judge(ev):
        return engine.judge(ev) if ev else []
    reruns = 0
    with ThreadPoolExecutor(engine.CPUS) as ex:
        for ev, v in zip(shards, ex.map(judge, shards)):
            for h, k, cl in v:
                (w, si) = where[h]
                own = [c for c in cl if check.counts(c)]
                if not own:
                    # settings that do not take effect break what depends on them; what goes
                    # wrong in the default environment, too, is not their fault
                    reruns += 1
                    if reruns <= 20:
                        own = ['C22:' + c for c in cl if c not in plain(exes[w[2]], w[3][si], w[2], si)]
                if not own:
                    continue
                check.viol.append((own,
                                   dict(kind='environment', clauses=cl, script=w[3][si], entries=w[1]['text'], settings=w[1]['c'], variant=w[2], n=k,
                                        event=next((x for x in ev if x['h'] == h and x['n'] == k), {}))))
    check.cov['transitions'] += nev
    check.cov['traces_validated_against_impl'] += nh
    check.notes['environments'] = dict(environments=len(work), histories=nh, events=nev,
                                       distinct_settings=len({json.dumps(w[1]['c'], sort_keys=True) for w in work}))
    check.samples.append([w[1]['text'] for w in work[:4]])


# -------------------------------------------------------------------- probes
PVARIANTS = ['static', 'static', 'getenv', 'atexit', 'shared', 'nold', 'nothread']


def probes(check):
    n = 1500 if check.thorough else 300
    envs = environments('probe', n, check.seed * 37 + 2)
    run = launcher()
    exes = {v: build.harness('env.cpp', v) for v in sorted(set(PVARIANTS))}
    rnd = random.Random(check.seed * 78)
    work = [(i, e, rnd.choice(PVARIANTS), rnd.random() < 0.5) for i, e in enumerate(envs)]

    def one(w):
        i, e, v, old = w
        d = tempfile.mkdtemp(dir=engine.tmp(), prefix='p')
        try:
            name = next((x['v'] for x in e['env'] if x['n'] == 'DUMA_OUTPUT_FILE' and x['eq']), None)
            name = ''.join(name) if name is not None else ''
            path = os.path.join(d, name) if name else os.path.join(d, 'msg')
            before = ''
            writable = bool(name) and os.path.isdir(os.path.dirname(path))
            if writable and old:
                before = 'what was there\nbefore'
                with open(path, 'w') as f:
                    f.write(before)
            with open(d + '/.env', 'wb') as f:
                f.write(environ(e['text']))
            with open(d + '/.err', 'a') as fe, open(d + '/.out', 'a') as fo:
                rc = subprocess.run([run, d + '/.env', exes[v], d + '/.res', d + '/.out', d + '/.err', path], cwd=d, stdout=fo, stderr=fe,
                                    stdin=subprocess.DEVNULL, timeout=120).returncode

            def text(p):
                return open(p, errors='replace').read() if os.path.exists(p) else ''
            res = [ln.split(' ') for ln in text(d + '/.res').split('\n') if ln]
            extra = sorted(x for x in os.listdir(d) if x not in ('.env', '.err', '.out', '.res') and (not writable or x != os.path.basename(path)))
            whole = text(path)
            if not res:
                res = [['start', str(rc), str(-rc if rc < 0 else 0), '0', text(d + '/.out').encode().hex() or '-', text(d + '/.err').encode().hex() or '-', whole.encode().hex() or '-']]
            ev = []
            for k, r in enumerate(res):
                t = ['' if x == '-' else bytes.fromhex(x).decode(errors='replace') for x in r[4:7]]
                if k == 0 and before and t[2].startswith(before):
                    t[2] = t[2][len(before):]
                end = 'ret' if r[1] == '0' and r[2] == '0' else SIG.get(int(r[2]), 'code%s sig%s' % (r[1], r[2]))
                al = ''.join(t)
                ev.append(dict(h=1, k=0, env=e['env'], leaks=0 if v in trace.NOLD else 1, atexit=1 if v == 'atexit' else 0, what=r[0], end=end,
                               out=t[0], err=t[1], file=t[2], words=[x for x, p in WORDS if re.search(p, al)], dir=1 if writable else 0,
                               keep=1 if whole.startswith(before) and not extra else 0, fds=int(r[3])))
            return w, ev, None if rc == 0 or (rc < 0 and len(res) == 1) else 'program ended with %d' % rc
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        done = list(ex.map(one, work))
    evs, src = [], []
    for w, ev, err in done:
        if err:
            check.viol.append((['C22:' + err], dict(kind='environment', clauses=[err], script=[], entries=w[1]['text'], variant=w[2], event={})))
        for x in ev:
            x['k'] = len(evs)
            evs.append(x)
            src.append(w)
    sh = [evs[i::4] for i in range(4)]
    with ThreadPoolExecutor(4) as ex:
        for v in ex.map(lambda s: engine.judge(s, module='EnvTrace'), sh):
            for h, k, cl in v:
                check.viol.append(([c for c in cl if check.counts(c)], dict(kind='environment', clauses=cl, script=[], entries=src[k][1]['text'], variant=src[k][2],
                                                                           event={a: b for a, b in evs[k].items() if a != 'env'})))
    outs = {}
    for x in evs:
        key = x['what'] + ':' + x['end']
        outs[key] = outs.get(key, 0) + 1
    check.cov['transitions'] += len(evs)
    check.cov['traces_validated_against_impl'] += len(work)
    check.notes['probes'] = dict(environments=len(work), probes=len(evs), outcomes=outs)


# ------------------------------------------------------------ known findings
def findings(check):
    """documented variables without effect, shown against the real code"""
    import inits
    exe = build.harness('seq.cpp', 'static')
    def outcome(script, env, early=0):
        d, rc = engine.run_scripts(exe, [script], dict(env, **(dict(H_EARLY=1, **inits.EARLY) if early else {})), 'f', [0])
        try:
            return open(d + '/trace', errors='replace').read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    zero = ['A 0 malloc 0 0 1 0']
    found = []
    if re.search(r'Allocating 0 bytes', outcome(zero, dict(DUMA_MALLOC_0_STRATEGY='0'))):
        for n in ('DUMA_ALLOW_MALLOC_0', 'DUMA_ALLOC_MALLOC_0'):
            if all(not re.search(r'Allocating 0 bytes', outcome(zero, {n: v})) for v in '01'):
                found.append('%s is documented but no value of it traps malloc(0)' % n)
    small = ['A 0 malloc 0 10 1 0']
    m = re.search(r'\n<.* al=(\d)', outcome(small, dict(DUMA_SKIPCOUNT_INIT='3'), 1))
    if m and m.group(1) == '1':
        found.append('DUMA_SKIPCOUNT_INIT is documented but the first call initialises everything whatever its value')
    for f in found:
        if f in check.findings():
            check.known.append(f)
        else:
            check.viol.append((['C22:' + f], dict(kind='environment', clauses=[f], script=[], event={})))
