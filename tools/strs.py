"""C18: calls of the copying functions, enumerated by TLC (spec/StrMC.tla,
StrGen.tla), run by harness/str.cpp, judged by TLC (spec/StrTrace.tla)."""
import json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, engine, trace

FUNS = ['memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat']
MUTANTS = ['no-terminator', 'terminator-always', 'off-by-one', 'one-sided', 'never-backward', 'never-forward', 'no-padding']


def cases(out):
    r = []
    for ln in out.split('\n'):
        if ln.startswith('"CASE '):
            x = json.loads(json.loads(ln)[5:])
            r.append(dict(f=x[0], d=x[1], s=x[2], n=x[3], o=x[4], m=x[5], lift=x[6] if len(x) > 6 else 0))
    return r


def run(exe, cs, env):
    """runs cases (with place and entry); returns raw results"""
    d = tempfile.mkdtemp(dir=engine.tmp(), prefix='str')
    try:
        with open(d + '/c', 'w') as f:
            for c in cs:
                f.write('%d %d %d %d %d %d %d %d %s\n' % (FUNS.index(c['f']), c['d'], c['s'], c['n'], c['place'], c['entry'], c['lift'],
                                                       len(c['m']), ' '.join(map(str, c['m']))))
        e = {k: v for k, v in os.environ.items() if not k.startswith('DUMA_')}
        e.update(env)
        p = subprocess.run([exe, d + '/c', d + '/r'], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)
        if p.returncode:
            return None, 'harness ended with %d' % p.returncode
        got = {}
        for ln in open(d + '/r', errors='replace'):
            h, t = ln.rstrip('\n').split(' | ' if ' | ' in ln else ' |', 1)
            w = h.split()
            got[int(w[0])] = (w[1], int(w[2]), int(w[3]), [int(x) for x in w[4:]], t)
        if len(got) != len(cs):
            return None, 'harness ran %d of %d calls' % (len(got), len(cs))
        return got, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first(check):
    """C23: a copying function as the first call of the process goes as later ones do"""
    rc, out = engine.tlc(['-workers', '1', '-config', 'StrMC.cfg', 'StrMC.tla'], dict(N=4, EMIT=1, ONLY=1), 850, heap='3g')
    if rc:
        raise engine.EngineError('generation of calls failed\n' + out[-2000:])
    rnd = random.Random(check.seed)
    all_ = cases(out)
    units = []
    for v in ('static', 'noglobal', 'nold', 'shared', 'getenv', 'nothread', 'explicit'):
        exe = build.harness('str.cpp', v, flags=[build.compile_c('strmac.c', v)], ldflags=['-lpthread'])
        for o in (0, 1) if v != 'explicit' else (0,):          # settings are read by duma_init()
            own = [c for c in all_ if c['f'] != 'memcpy' or c['o'] == o]
            k = (2000 if v == 'static' else 600) * (3 if check.thorough else 1)
            cs = [dict(c, place=rnd.choice((0, 1)), entry=rnd.choice((1, 2) if v == 'noglobal' else (0, 1, 2))) for c in rnd.sample(own, min(k, len(own)))]
            for i in range(0, len(cs), 300):
                units.append((exe, v, o, cs[i:i + 300]))

    def one(u):
        exe, v, o, cs = u
        r, err = run(exe, cs, dict({'DUMA_MEMCPY_OVERLAP': '1'} if o else {}, H_F='1', GLIBCXX_TUNABLES='glibcxx.eh_pool.obj_count=0'))
        return u, None if err else [event(c, r[k], v, k) for k, c in enumerate(cs)], err
    with ThreadPoolExecutor(engine.CPUS) as ex:
        done = list(ex.map(one, units))
    n = 0
    flat = []
    for u, ev, err in done:
        if err:
            check.viol.append((['C23:' + err], dict(kind='string', name=err, clauses=[err], script=[], cases=u[3][:3])))
        else:
            for c, e in zip(u[3], ev):
                flat.append((c, u, dict(e, k=len(flat))))
    for h, k, cl in engine.judge([e for _, _, e in flat], module='StrTrace'):
        c, u, e = flat[k]
        mine = ['C23:as-first-call:' + x for x in cl]
        # does it go the same way later?
        r, err = run(u[0], [c], {'DUMA_MEMCPY_OVERLAP': '1'} if u[2] else {})
        if err or not engine.judge([event(c, r[0], u[1], 0)], module='StrTrace'):
            check.viol.append((mine, dict(kind='string', name='string call', clauses=cl, case=c, variant=u[1], event=e, script=[str(c)])))
            n += 1
            if n > 8:
                break
    check.cov['transitions'] += len(flat)
    check.cov['traces_validated_against_impl'] += len(flat)
    check.notes['string_first_calls'] = len(flat)


def event(c, r, variant, k):
    out, ret, stray, m, t = r
    e = dict(h=1, k=k, f=c['f'], m=c['m'], d=c['d'], s=c['s'], n=c['n'], o=c['o'], out=out, ret=ret, stray=stray, km=1 if m else 0, rm=m or c['m'],
             tr=0, rd=[], wr=[], rf='', rd0=-1, rs0=-1, rn=-1, fl='', ln=0, rfl='', rln=0)
    if variant not in trace.NOLD:
        e['fl'], e['ln'] = [('UNKNOWN', 0), ('site.c', 77), ('src_m.c', 7101 + FUNS.index(c['f']))][c['entry']]
    if variant == 'tsan' and out == 'ret' and not c['lift']:
        e['tr'] = 1
        e['rd'] = [i + 1 for i, x in enumerate(t) if x in 'rb']
        e['wr'] = [i + 1 for i, x in enumerate(t) if x in 'wb']
    if out == 'abort':
        x = re.search(r'DUMA Aborting: (\w+)\((?:0x)?([0-9a-f]+), (?:0x)?([0-9a-f]+)(?:, (-?\d+))?\): memory regions overlap(?: at (.*)\((-?\d+)\))?\.', t)
        if x:
            p = t.split(' ')
            e['out'] = 'abort:overlap'
            e['rf'] = x.group(1)
            # the operands of the report, as positions of the case
            e['rd0'] = c['d'] if int(x.group(2), 16) == int(p[0], 16) else -1
            e['rs0'] = c['s'] if int(x.group(3), 16) == int(p[1], 16) else -1
            n = int(x.group(4) or -1)
            if c['lift'] and c['lift'] % 10 in (1, 3):
                n -= 1 << (c['lift'] // 10)
            e['rn'] = n if -1 <= n < 1 << 30 else -2
            e['rfl'], e['rln'] = trace.norm_file(x.group(5)) if x.group(5) is not None else '', int(x.group(6) or 0)
    return e


def model(check):
    """all calls on small memories in the model; the wrong variants are refuted"""
    def one(m):
        return engine.tlc(['-workers', '1' if m != 'none' else '4', '-config', 'StrMC.cfg', 'StrMC.tla'],
                          dict(MUTANT=m, N=('6' if check.thorough else '5') if m == 'none' else '4'), 850, heap='3g')
    with ThreadPoolExecutor(engine.CPUS) as ex:
        res = list(ex.map(one, ['none'] + MUTANTS))
    refuted = {}
    for m, (rc, out) in zip(['none'] + MUTANTS, res):
        if m == 'none':
            if rc:
                raise engine.EngineError('the model of the string functions does not hold\n' + out[-3000:])
            x = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
            check.cov['states'] += int(x[1])
            check.cov['transitions'] += int(x[0])
        else:
            x = re.search(r'Invariant (\w+) is violated', out)
            if not x:
                raise engine.EngineError('variant %s of the string functions is not refuted\n%s' % (m, out[-2000:]))
            refuted[m] = x.group(1)
    check.notes['string_model'] = dict(variants_refuted=refuted)


def strings(check):
    T = check.thorough
    gens = [('StrMC', dict(N=n, EMIT=1)) for n in ((3, 4, 5, 6, 7) if T else (3, 4, 5))]
    gens += [('StrGen', dict(KIND='large', NUM=6000 if T else 1500, K=i)) for i in range(8 if T else 2)]
    gens += [('StrGen', dict(KIND='lift', NUM=120 if T else 26))]

    def gen(x):
        mod, e = x
        args = ['-workers', '1', '-config', mod + '.cfg', mod + '.tla']
        if mod == 'StrGen':
            args = ['-seed', str(check.seed * 100 + int(e.get('K', 50)))] + args
        elif mod == 'StrMC':
            e = dict(e, ONLY=1)
        rc, out = engine.tlc(args, e, 850, heap='3g')
        if rc:
            raise engine.EngineError('generation of calls failed\n' + out[-2000:])
        return cases(out)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        got = list(ex.map(gen, gens))
    small = [c for (g, e), cs in zip(gens, got) if g == 'StrMC' for c in cs]
    large = [c for (g, e), cs in zip(gens, got) if e.get('KIND') == 'large' for c in cs]
    lift = [c for (g, e), cs in zip(gens, got) if e.get('KIND') == 'lift' for c in cs]
    rnd = random.Random(check.seed)
    units = []
    for v, places in (('static', (0, 1)), ('tsan', (0,)), ('nold', (1,)), ('shared', (0,)), ('sonold', (1,))):
        exe = build.harness('str.cpp', v, flags=[build.compile_c('strmac.c', v)], ldflags=['-lpthread'])
        for o in (0, 1):
            cs = []
            for c in small + large:
                if c['f'] == 'memcpy' and c['o'] != o or c['f'] != 'memcpy' and o == 1 and rnd.random() < 0.9:
                    continue
                if v in ('nold', 'shared', 'sonold') and rnd.random() < 0.8:
                    continue
                for p in places:
                    cs.append(dict(c, place=p, entry=rnd.choice((0, 1, 2))))
            for i in range(0, len(cs), 4000):
                units.append((exe, v, o, cs[i:i + 4000]))
        if v == 'static':
            for c in lift:
                units.insert(0, (exe, v, c['o'], [dict(c, place=0, entry=rnd.choice((0, 1, 2)))]))

    def one(u):
        exe, v, o, cs = u
        env = {'DUMA_MEMCPY_OVERLAP': str(o)} if o else {}
        r, err = run(exe, cs, env)
        if err:
            return u, None, err
        ev = [event(c, r[k], v, k) for k, c in enumerate(cs)]
        return u, ev, None

    outs = {}
    n = 0
    with ThreadPoolExecutor(engine.CPUS) as ex:
        done = list(ex.map(one, units))
    # lifted calls are judged together
    batch, single = [], []
    for u, ev, err in done:
        if err:
            check.viol.append((['C18:' + err], dict(kind='string', name=err, clauses=[err], script=[], cases=u[3][:3])))
        elif len(ev) == 1:
            ev[0]['k'] = len(single)
            single.append((u[3][0], u, ev[0]))
        else:
            batch.append(([(c, u, e) for c, e in zip(u[3], ev)]))
    if single:
        batch.append(single)

    def judge(b):
        return b, engine.judge([e for _, _, e in b], module='StrTrace')
    with ThreadPoolExecutor(engine.CPUS) as ex:
        for b, v in ex.map(judge, batch):
            n += len(b)
            for c, u, e in b:
                key = e['f'] + ':' + e['out'] + (':lifted' if c['lift'] else '')
                outs[key] = outs.get(key, 0) + 1
            for h, k, cl in v:
                mine = [x for x in cl if check.counts(x)]
                if mine:
                    c, u, e = b[k]
                    check.viol.append((mine, dict(kind='string', name='string call', clauses=cl, case=c, variant=u[1], event=e, script=[str(c)])))
    check.cov['transitions'] += n
    check.cov['traces_validated_against_impl'] += n
    check.notes['string_calls'] = dict(calls=n, small=len(small), large=len(large), lifted=len(lift), outcomes=outs)
    for b in batch[:2]:
        check.samples.append([dict(e, m=e['m'][:20]) for _, _, e in b[:2]])
