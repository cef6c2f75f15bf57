"""What the checks do besides running generated call histories (tools/plans.py).
Each part is a function of a Check; it adds to check.viol, check.cov, check.notes."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import bigs, build, engine, envs, inits, strs, trace


def env(**kw):
    return {'DUMA_' + k: v for k, v in kw.items()}


D = {}


# --------------------------------------------------- threads: C16, C24
LOCK_MUTANTS = ['depth-outside', 'owner-after-unlock', 'close-after-unlock', 'unlocked-count', 'macro-keeps', 'callback-locked', 'error-keeps']


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def lock_model(check):
    """the model of the lock holds, and every wrong variant of it is refuted"""
    cfgs = [('none', 'Lock.cfg')] + ([('none', 'Lock3.cfg')] if check.thorough else []) + [(m, 'Lock.cfg') for m in LOCK_MUTANTS]

    def one(x):
        m, cfg = x
        return engine.tlc(['-workers', '1', '-config', cfg, 'Lock.tla'], dict(MUTANT=m), 850)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        res = list(ex.map(one, cfgs))
    refuted = {}
    for (m, cfg), (rc, out) in zip(cfgs, res):
        if m == 'none':
            gen, dist = tlc_stats(out)
            check.cov['states'] += dist
            check.cov['transitions'] += gen
            if rc != 0:
                raise engine.EngineError('the model of the lock does not hold\n' + out[-3000:])
        else:
            x = re.search(r'(Invariant \w+ is violated|Temporal properties were violated|Deadlock reached|property \w+)', out)
            if rc == 0 or not x:
                raise engine.EngineError('variant %s of the model of the lock is not refuted\n%s' % (m, out[-2000:]))
            refuted[m] = x.group(1)
    check.notes['lock_model'] = dict(variants_refuted=refuted)


# (focus, histories quick, depth, variants, environments); depth 0: exhaustive, sampled
MT = {
    'C16': [('pairs', 2200, 0, ['tsan'], [D]), ('gpairs', 324, 0, ['static'], [D]), ('gpairs0', 110, 0, ['tsan'], [env(PROTECT_FREE=0)]), ('pairs', 500, 0, ['static'], [env(PROTECT_FREE=0), env(PROTECT_FREE=40)]),
            ('mix', 150, 10, ['tsan'], [D, env(PROTECT_FREE=0)]), ('mix', 120, 12, ['static'], [env(PROTECT_BELOW=1), env(CHECK_FREQ=3), env(PROTECT_FREE=60)]),
            ('leak', 100, 10, ['tsan', 'static'], [D]), ('zero', 100, 10, ['tsan', 'static'], [env(MALLOC_0_STRATEGY=2, NEW_0_STRATEGY=2)]),
            ('mix', 100, 10, ['nold', 'shared'], [D]), ('hpairs', 200, 0, ['static'], [D])],
    'C24': [('pairs', 1000, 0, ['tsan', 'static'], [D]), ('pairs', 500, 0, ['static'], [env(PROTECT_FREE=0), env(MAX_ALLOC=1100), env(CHECK_FREQ=1)]),
            ('hpairs', 250, 0, ['static', 'tsan'], [D]), ('mix', 120, 12, ['static'], [D, env(PROTECT_FREE=0)]),
            ('leak', 120, 10, ['static'], [D]), ('zero', 100, 10, ['static'], [env(MALLOC_0_STRATEGY=1, NEW_0_STRATEGY=2), env(MALLOC_0_STRATEGY=2)])],
    'C01': [('mix', 100, 12, ['static'], [D, env(PROTECT_FREE=0)]), ('gpairs', 150, 0, ['static'], [D])],
    'C05': [('pairs', 300, 0, ['static'], [D]), ('mix', 80, 12, ['static'], [D, env(PROTECT_FREE=60)])],
    'C08': [('mix', 100, 12, ['static'], [env(CHECK_FREQ=1), env(CHECK_FREQ=3, ALIGNMENT=16)])],
    'C12': [('mix', 150, 12, ['static'], [D, env(PROTECT_FREE=0)])],
    'C14': [('leak', 150, 12, ['static'], [D, env(REPORT_ALL_LEAKS=1)])],
    'C19': [('hpairs', 500, 0, ['static'], [D]), ('hpairs', 100, 0, ['nold', 'tsan'], [D])],
    'C20': [('dpairs', 900, 0, ['static'], [D]), ('pairs', 300, 0, ['static'], [env(PROTECT_FREE=60)])],
}


def threads(check):
    """generated programs with schedules, run by the real threads; the calls are
    judged in the order of their critical sections, the lock events as they came"""
    plan = MT[check.pid]
    mult = 8 if check.thorough else 1
    keys = {}
    for f, n, depth, _, _ in plan:
        keys[(f, depth)] = max(keys.get((f, depth), 0), n)

    def gen(k):
        f, depth = k
        return k, engine.generate(f, depth, sim=0 if depth == 0 else keys[k] * mult, module='MTGen', seed=check.seed * 1000 + 3)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        got = dict(ex.map(gen, keys))
    jobs = []
    for pi, (f, n, depth, variants, envs) in enumerate(plan):
        scripts = got[(f, depth)][0]
        for vi, v in enumerate(variants):
            for ei, e in enumerate(envs):
                rnd = random.Random(check.seed * 7919 + pi * 131 + vi * 17 + ei)
                sc = scripts if len(scripts) <= n * mult else rnd.sample(scripts, n * mult)
                jobs.append(engine.Job(check.adapt(sc, v), e, variant=v, policy=[0, 1, 2, 3], harness='mt.cpp',
                                       name='mt:%s/%s/%s' % (f, v, ','.join('%s=%s' % (k[5:], x) for k, x in e.items()))))
    r = check.run_jobs(jobs, 'threads')
    check.cov['states'] += sum(s[0] for _, s in got.values())
    check.cov['transitions'] += sum(s[1] for _, s in got.values())
    check.notes['threads']['lock_events'] = r.locks


# ------------------------------------------------------- known findings: C07
CHUNK_REST = 'malloc(800000) and free() repeated with DUMA_PROTECT_FREE=0: the rest of each 1 MB chunk stays mapped'


def chunk_rest(check):
    """a history outside the sizes of the generator that refutes the bound on the footprint"""
    n = 40
    script = [ln for k in range(n) for ln in ('A %d malloc 800000 1 0 0' % k, 'F %d free 2 0' % k)]
    exe = build.harness('seq.cpp', 'static')
    d, rc = engine.run_scripts(exe, [script], env(PROTECT_FREE='0'), 'k', [0])
    try:
        ev = trace.convert(d + '/trace', trace.config(env(PROTECT_FREE='0'), 'static'))[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mp = [e['mp'] for e in ev if e['op'] == 'F']
    check.notes['chunk_rest'] = dict(calls=len(script), pages_after_first=mp[0] if mp else -1, pages_after_last=mp[-1] if mp else -1)
    if len(mp) == n and mp[-1] - mp[n // 2] >= n // 2:
        if CHUNK_REST in check.findings():
            check.known.append(CHUNK_REST)
        else:
            check.viol.append((['C07:' + CHUNK_REST], dict(kind='growth', clauses=[CHUNK_REST], script=script[:4], env=env(PROTECT_FREE='0'), variant='static', event={}, name='growth')))


# ------------------------------------------------------------------ C15
def slots(check):
    """memory runs out when the bookkeeping is about to grow and what is left of
    the last piece of memory is too small for it, but not for small blocks: where
    that is depends on the placement, so it is looked for in the real code"""
    exe = build.harness('seq.cpp', 'static')

    def run(script, e):
        d, rc = engine.run_scripts(exe, [script], e, 'k', [0])
        try:
            return trace.convert(d + '/trace', trace.config(e, 'static'))[0]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def line(i, size):
        return 'A %d malloc %d 0 0 0' % (i, size)

    def plan(e):
        n = 780
        lo = [x['lo'] for x in run([line(i, 1) for i in range(n)], e)[1:]]
        at = [(i, lo[i] - lo[i - 1]) for i in range(520, n) if lo[i] - lo[i - 1] >= 14]      # the bookkeeping grew
        out = []
        for i, pages in at[:3 if check.thorough else 1]:
            for k in (i - 2, i - 1, i):
                a, b = 0, 256         # pages of the biggest block that still fits
                while b - a > 1:
                    m = (a + b) // 2
                    ev = run([line(j, 1) for j in range(k)] + ['I 0 -1', line(k, m * 4096)], e)
                    a, b = (m, b) if ev[-1]['r'] >= 0 else (a, m)
                for left in range(10, 16):
                    if a > left + 1:
                        out.append([line(j, 1) for j in range(k)] + [line(k, (a - left) * 4096), 'I 0 -1']
                                   + [line(k + 1 + j, 1) for j in range(12)] + ['F 3 free 9 0', 'KA', 'I 0 0', line(k + 20, 100), 'F %d free 9 0' % (k + 20), 'V 5', 'KA', 'X'])
        return out
    envs = [env(PROTECT_FREE=0, MALLOC_FAILEXIT=0), env(MALLOC_FAILEXIT=0)] + ([env(PROTECT_FREE=0)] if check.thorough else [])
    with ThreadPoolExecutor(engine.CPUS) as ex:
        plans = list(ex.map(plan, envs))
    check.run_jobs([engine.Job(s, e, policy=0, name='slots', cfg=dict(slots=1)) for s, e in zip(plans, envs) if s], 'slots')
    check.notes['slots']['searched'] = [len(s) for s in plans]


IMPL_BASE = dict(PF='-1', MAXA='0', BELOW='0', M0='3', FAILEX='0', OOM='0', HIGH='0', SITES='0', VOCAB='all')
#         settings of the model, depth in quick, in thorough
IMPL = dict(
    base=(dict(VOCAB='small'), 5, 6), below=(dict(VOCAB='small', BELOW='1', PF='9'), 5, 6), align=(dict(VOCAB='align', BELOW='2', PF='4'), 4, 5),
    pf0=(dict(VOCAB='small', PF='0'), 5, 6), grow=(dict(VOCAB='one'), 7, 9), growpf=(dict(VOCAB='one', PF='3'), 7, 9), pf=(dict(VOCAB='large', PF='9'), 5, 6),
    maxa=(dict(VOCAB='large', MAXA='16'), 5, 6), limits=(dict(VOCAB='large', PF='6', MAXA='10'), 5, 6), sites=(dict(SITES='1'), 4, 5), growsites=(dict(VOCAB='one', SITES='1'), 6, 7),
    zero=(dict(VOCAB='zero', M0='2', PF='2'), 6, 8), zero3=(dict(VOCAB='zero', PF='3'), 5, 6), zero0=(dict(VOCAB='zero', PF='0', M0='1'), 6, 7),
    oom=(dict(VOCAB='large', PF='6', OOM='1'), 4, 5), oomkeep=(dict(VOCAB='large', OOM='1'), 4, 5), oomgrow=(dict(VOCAB='one', PF='0', HIGH='1', FAILEX='1', OOM='1'), 6, 8))
IMPL_OF = {
    'C01': (['base', 'align'], [('no-room-for-alignment', 'align', 4), ('fit-off-by-one', 'base', 6), ('size-kept', 'base', 5)]),
    'C02': (['base', 'align'], [('guard-open', 'base', 4)]),
    'C03': (['below', 'align'], [('guard-open-below', 'below', 4)]),
    'C05': (['base', 'growpf', 'oomkeep'], [('guard-side-left', 'base', 4), ('reuses-protected', 'zero3', 6)]),
    'C06': (['pf', 'maxa', 'limits', 'growpf'], [('partial-not-counted', 'limits', 5), ('releases-all', 'pf', 5), ('limit-not-enforced', 'pf', 5), ('limit-ignored', 'maxa', 6)]),
    'C07': (['pf0', 'grow', 'zero0'], [('guard-stays-mapped', 'pf0', 4), ('emptied-not-counted', 'growpf', 6), ('new-not-counted', 'grow', 7), ('old-table-kept', 'grow', 6)]),
    'C09': (['sites', 'pf0', 'growsites'], [('double-free-passes', 'base', 5), ('slot-not-emptied', 'pf0', 5), ('copy-too-short', 'grow', 6),
                                           ('realloc-looks-later', 'oomkeep', 4), ('answers-for-its-own-memory', 'base', 4)]),
    'C12': (['oom', 'base'], [('frees-after-failure', 'oom', 5)]),
    'C13': (['zero', 'zero3', 'zero0'], [('reuses-protected', 'zero3', 6)]),
    'C14': (['growsites', 'sites'], [('copy-too-short', 'growsites', 6)]),
    'C15': (['oom', 'oomkeep', 'oomgrow'], [('reclaim-once', 'oomkeep', 5), ('never-grows', 'grow', 7), ('partial-not-counted', 'oom', 5)]),
    'C17': (['grow', 'oom', 'align'], [('left-open', 'base', 3), ('fresh-open', 'pf', 5), ('old-table-kept', 'grow', 6)]),
    'C20': (['sites', 'growsites'], [('no-free-site', 'sites', 4)]),
}


def impl_model(check):
    """the allocator's algorithm keeps the contract, in every history up to a
    depth; wrong variants of it are refuted (by the contract or the invariant)"""
    confs, mutants = IMPL_OF[check.pid]
    runs = [('none', c, IMPL[c][2 if check.thorough else 1]) for c in confs] + mutants

    def one(x):
        m, c, depth = x
        return engine.tlc(['-workers', '1', '-config', 'Impl.cfg', 'Impl.tla'], dict(IMPL_BASE, **IMPL[c][0], DEPTH=str(depth), MUTANT=m), 3000)
    with ThreadPoolExecutor(engine.CPUS) as ex:
        res = list(ex.map(one, runs))
    refuted, sizes = {}, {}
    for (m, c, depth), (rc, out) in zip(runs, res):
        bad = re.search(r'Invariant (\w+) is violated', out)
        if m == 'none':
            if rc:
                raise engine.EngineError('the model of the allocator does not hold (%s)\n%s' % (c, out[-3000:]))
            x = re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1]
            check.cov['states'] += int(x[1])
            check.cov['transitions'] += int(x[0])
            sizes[c] = dict(depth=depth, states=int(x[1]))
        elif not bad:
            raise engine.EngineError('variant %s of the model of the allocator is not refuted\n%s' % (m, out[-2000:]))
        else:
            refuted[m] = bad.group(1)
    check.notes['allocator_model'] = dict(configurations=sizes, variants_refuted=refuted)


PARTS = {
    'C15': [slots, inits.refused],
    'C07': [chunk_rest],
    'C18': [strs.model, strs.strings],
    'C22': [envs.model, envs.histories, envs.probes, envs.findings],
    'C23': [inits.model, inits.race, strs.first, inits.first_calls],
    'C16': [lock_model, threads],
    'C24': [lock_model, threads],
    'C01': [threads], 'C05': [threads], 'C08': [threads], 'C12': [threads], 'C14': [threads], 'C19': [threads], 'C20': [threads],
}
for _p in ('C11', 'C12', 'C15'):
    PARTS[_p] = PARTS.get(_p, []) + [bigs.blocks]
for _p in ('C01', 'C02', 'C03', 'C05', 'C07', 'C14', 'C21'):
    PARTS[_p] = PARTS.get(_p, []) + [bigs.light]
for _p in IMPL_OF:
    PARTS[_p] = [impl_model] + PARTS.get(_p, [])
