"""C23: any call may come first; initialising happens once.  Histories start in
a constructor that runs before the library's own, so that the first call of the
history is the first call of the process; repeated initialisations are calls like
any other.  They are judged by the contract (spec/Heap.tla) as if the library had
been initialised before.  spec/Init.tla is the model of the protocol."""
import os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, engine, trace

EARLY = {'GLIBCXX_TUNABLES': 'glibcxx.eh_pool.obj_count=0'}    # the C++ runtime itself allocates nothing at its start


def env(**kw):
    return {'DUMA_' + k: str(v) for k, v in kw.items()}


ENVS = [{}, env(PROTECT_BELOW=1), env(ALIGNMENT=16, PROTECT_FREE=0), env(PROTECT_FREE=40, SHOW_ALLOC=1), env(CHECK_FREQ=3, FILL=7, SLACKFILL=85),
        env(MALLOC_0_STRATEGY=1, NEW_0_STRATEGY=2), env(MALLOC_0_STRATEGY=2, MALLOC_FAILEXIT=0), env(MALLOC_0_STRATEGY=0), env(MAX_ALLOC=1500, REPORT_ALL_LEAKS=1),
        dict(H_NOENV='1')]         # last: no environment at all
UNSETTLED = {'C14', 'C16', 'C20', 'C21', 'C22', 'C24'}
VARIANTS = ['static', 'noglobal', 'nold', 'getenv', 'atexit', 'nothread', 'explicit', 'shared', 'sonold']


def run(exe, scripts, e, variant, mode, start=None):
    d, rc = engine.run_scripts(exe, scripts, dict(e, H_EARLY=3 if mode == 1 and 'H_NOENV' in e else mode, **EARLY), 'i', [i % 4 for i in range(len(scripts))])
    try:
        if rc != 0:
            return None, 'harness ended with %d\n%s' % (rc, open(d + '/err', errors='replace').read()[-1500:])
        ev = trace.convert(d + '/trace', trace.config(e, variant), start=start)[0]
        return ev, trace.convert.start_logs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_calls(check):
    rnd = random.Random(check.seed * 91)
    with ThreadPoolExecutor(3) as ex:
        one = ex.submit(engine.generate, 'first', 1)
        two = ex.submit(engine.generate, 'first', 2)
        mix = ex.submit(engine.generate, 'firstmix', 40, 1200 if check.thorough else 260, check.seed * 1000 + 5)
        (one, s1), (two, s2), (mix, s3) = one.result(), two.result(), mix.result()
    two = [s for s in two if s not in one]
    units = []
    for v in VARIANTS:
        for k, e in enumerate(ENVS):
            if v == 'explicit' and k:
                sc = [['i'] + s for s in rnd.sample(one, 25) + rnd.sample(mix, 8)]     # settings are read by duma_init()
            elif v == 'static' or (v == 'noglobal' and k < 3) or k == 0:
                sc = one + rnd.sample(two, min(len(two), 1500 if check.thorough else 120)) + rnd.sample(mix, 60 if check.thorough else 10)
                if not check.thorough and k:
                    sc = rnd.sample(one, 150) + sc[len(one):]
            else:
                sc = rnd.sample(one, 40) + rnd.sample(two, 40) + rnd.sample(mix, 8)
            if e.keys() & {'DUMA_PROTECT_BELOW', 'DUMA_FILL'}:      # passed by the caller of a member operator, who has to know them
                sc = [s for s in sc if not any(' mnew ' in ln or ' manew ' in ln for ln in s[:2])]
            units.append((v, e, check.adapt(sc, v)))
    exes = {v: build.harness('seq.cpp', v) for v in VARIANTS}

    def one_unit(u):
        v, e, scripts = u
        a, logs = run(exes[v], [['KA']], e, v, 2)
        if a is None:
            return u, [], 0, logs
        ev, err = run(exes[v], scripts, e, v, 1, (a[0], logs))
        if ev is None:
            return u, [], 0, err
        return u, [(h, n, c, [x for x in ev if x['h'] == h and x['n'] == n]) for h, n, c in engine.judge(ev)], len(ev), None
    units.sort(key=lambda u: -sum(map(len, u[2])))
    nev = nh = 0
    with ThreadPoolExecutor(engine.CPUS) as ex:
        for (v, e, scripts), viols, n, err in ex.map(one_unit, units):
            nev += n
            nh += len(scripts)
            if err:
                check.viol.append((['C23:' + err.split('\n')[0]], dict(kind='early', clauses=[err], script=[], env=e, variant=v, event={}, name='start')))
            seen = 0
            for h, k, cl, x in viols:
                script = scripts[h - 1]
                if v == 'explicit' and script[0] != 'i':       # before duma_init(): no lock, no settings, blocks count as internal
                    cl = [c for c in cl if not set(c.split(':')[0].split(',')) & UNSETTLED]
                    if not cl:
                        continue
                own = [c for c in cl if check.counts(c)]
                if not own:
                    # does the call go the same way in a process that was initialised before?
                    seen += 1
                    if seen <= 12:
                        plain = [ln for ln in script if ln != 'i']
                        t, terr = run(exes[v], [plain], e, v, 2)
                        if t is not None:
                            same = {c for _, _, cs in engine.judge(t) for c in cs}
                            own = ['C23:as-first-call:' + c for c in cl if c not in same]
                        else:
                            own = []
                if own:
                    check.viol.append((own, dict(kind='early', clauses=cl, script=script, env=e, variant=v, n=k, event=x[0] if x else {}, name='early')))
    check.cov['states'] += s1[0] + s2[0] + s3[0]
    check.cov['transitions'] += nev + s1[1] + s2[1] + s3[1]
    check.cov['traces_validated_against_impl'] += nh
    check.notes['first_calls'] = dict(histories=nh, events=nev, configurations=len(units), first_calls=len(one))


def refused(check):
    """C15: the system refuses memory at the very first call"""
    apis = dict(malloc=0, gmalloc=0, calloc=1, memalign=16, posix=16, valloc=0, strdup=0, realloc0=0, new=0, newnt=0, anewfl=0)
    rest = ['I 0 0', 'A 8 malloc 3000 0 1 8', 'F 8 free 0 0', 'A 9 new 20 0 1 9', 'KA', 'F 9 del 0 0', 'X']
    scripts = [['I %d %d' % (a, c), 'A 1 %s %d %d 0 5' % (api, n, al)] + rest
               for a in range(4) for c in (1, 2, -1) for api, al in apis.items() for n in (20, 2000000)]
    units = [(v, e) for v in ('static', 'noglobal', 'nold', 'getenv', 'nothread', 'shared') for e in ({}, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0))]
    exes = {v: build.harness('seq.cpp', v) for v, _ in units}

    def one_unit(u):
        v, e = u
        sc = check.adapt(scripts, v)
        a, logs = run(exes[v], [['KA']], e, v, 2)
        ev, err = run(exes[v], sc, e, v, 1, (a[0], logs)) if a is not None else (None, logs)
        if ev is None:
            return u, sc, [], 0, err
        return u, sc, [(h, n, c, [x for x in ev if x['h'] == h and x['n'] == n]) for h, n, c in engine.judge(ev)], len(ev), None
    nev = nh = 0
    with ThreadPoolExecutor(engine.CPUS) as ex:
        for (v, e), sc, viols, n, err in ex.map(one_unit, units):
            if err:
                raise engine.EngineError(err)
            nev += n
            nh += len(sc)
            for h, k, cl, x in viols:
                own = [c for c in cl if check.counts(c)]
                if own:
                    check.viol.append((own, dict(kind='early', clauses=cl, script=sc[h - 1], env=e, variant=v, n=k, event=x[0] if x else {}, name='refused')))
    check.cov['transitions'] += nev
    check.cov['traces_validated_against_impl'] += nh
    check.notes['refused_at_start'] = dict(histories=nh, events=nev)


HOLDS = [(k, c) for k in ('normal', 'explicit') for c in ('Init.cfg', 'Init2.cfg', 'Init3.cfg')] + [('lazylock', 'Init.cfg')]
MUTANTS = [('call-does-not-start', 'normal', 'Init.cfg'), ('constructs-again', 'explicit', 'Init.cfg'), ('lock-kept', 'normal', 'Init.cfg'),
           ('explicit-without-table', 'explicit', 'Init.cfg'), ('test-before-lock', 'normal', 'Init2.cfg'), ('release-before-init', 'normal', 'Init2.cfg'),
           ('threads-before-init', 'explicit', 'Init2.cfg')]


def model(check):
    """the protocol holds for one thread and for several; wrong variants are refuted"""
    runs = [('none',) + x for x in HOLDS] + MUTANTS

    def one(x):
        m, k, cfg = x
        return engine.tlc(['-workers', '1', '-config', cfg, 'Init.tla'], dict(MUTANT=m, KIND=k), 600)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        res = list(ex.map(one, runs))
    refuted = {}
    for (m, k, cfg), (rc, out) in zip(runs, res):
        bad = re.search(r'(?:Invariant (\w+) is violated|Temporal properties were violated)', out)
        if m == 'none':
            if rc:
                raise engine.EngineError('the model of initialising does not hold (%s, %s)\n%s' % (k, cfg, out[-3000:]))
            x = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
            check.cov['states'] += int(x[1])
            check.cov['transitions'] += int(x[0])
        elif not bad:
            raise engine.EngineError('variant %s/%s of the model of initialising is not refuted\n%s' % (m, k, out[-2000:]))
        else:
            refuted[m] = bad.group(1) or 'liveness'
    check.notes['init_model'] = dict(variants_refuted=refuted)


def race(check):
    """the schedule that refutes "test-before-lock", in the real code"""
    exe = build.harness('race.cpp', 'noglobal')
    p = subprocess.run([exe], env=EARLY, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    m = re.search(r'tables=(\d+) blocks=(\w+)', p.stdout.decode())
    got = m.group(0) if m else 'ended with %d' % p.returncode
    check.notes['two_first_calls'] = got
    check.cov['traces_validated_against_impl'] += 1
    if got != 'tables=1 blocks=kept':
        check.viol.append((['C23:first-calls-of-two-threads'], dict(kind='race', clauses=[got], script=[], env=EARLY, variant='noglobal', event={}, name='race')))
