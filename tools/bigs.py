"""Blocks around and above 2 GB and 4 GB: histories from spec/BigGen.tla, run by
harness/big.cpp, judged by spec/BigTrace.tla."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, engine, trace

# settings: environment, fill byte (-1: off), cost of a history (GB touched), number of histories in quick
SETS = [
    (dict(FILL='-1'), 0, 40), (dict(FILL='-1', PROTECT_BELOW='1'), 0, 24), (dict(FILL='-1', PROTECT_FREE='0'), 0, 24),
    (dict(FILL='-1', PROTECT_FREE='5000000'), 0, 16), (dict(FILL='-1', ALIGNMENT='16', SHOW_ALLOC='1'), 0, 16),
    (dict(FILL='-1', PROTECT_FREE='2200000', PROTECT_BELOW='1', SHOW_ALLOC='1'), 0, 12),
]
HEAVY = [(dict(), 6, 2), (dict(FILL='7', PROTECT_FREE='0', SHOW_ALLOC='1'), 10, 1), (dict(FILL='-1', PROTECT_FREE='0'), 12, 2),
         (dict(PROTECT_BELOW='1', PROTECT_FREE='0'), 10, 1)]
SCENE = (dict(FILL='-1', PROTECT_FREE='0', SHOW_ALLOC='1'), 12, 1)      # a block above 4 GB grows
pair = lambda x: [int(x) // 4096, int(x) % 4096]


def convert(h, env, script, result, log):
    g = lambda k, d: int(env.get(k, d))
    c = dict(below=g('PROTECT_BELOW', 0), fill=g('FILL', 255), pf=g('PROTECT_FREE', -1), align=g('ALIGNMENT', 1), show=g('SHOW_ALLOC', 0))
    blank = dict(id=0, api='', size=[0, 0], al=[0, 0], o=[0, 0], v=0, out='', am=0, log=[], leaks=[])
    ev = [dict(blank, h=h, n=0, op='begin', c=c)]
    addr = {}
    pos = int(result[0].split()[-1])
    for n, ln in enumerate(script + ['end']):
        w = ln.split()
        r = result[n + 1].split() if n + 1 < len(result) else ['died', str(len(log))]
        if r[-1] == 'stop':
            r = ['stop', str(len(log))]
        e = dict(blank, h=h, n=n + 1, op=w[0], out=r[0])
        text = log[pos:int(r[-1])]
        pos = int(r[-1])
        if w[0] in 'ARFPWUM':
            e['id'] = int(w[1])
        if w[0] == 'A':
            e.update(api=w[2], size=[int(w[3]), int(w[4])], al=[int(w[5]), int(w[6])])
        if w[0] == 'R':
            e.update(api='realloc', size=[int(w[2]), int(w[3])])
        if w[0] in 'AR' and r[0] in ('ptr', 'null'):
            e['am'] = int(r[1])
            if r[0] == 'ptr':
                addr[e['id']] = r[2]
        if w[0] in 'PWM':
            e['o'] = [int(w[2]), int(w[3])]
            e['v'] = int(w[4]) if w[0] == 'W' else int(r[1]) if r[0] == 'v' else 0
        if w[0] == 'U' and r[0] == 'v':
            e['size'] = pair(r[1])
        e['log'] = [[x, pair(y)] for x, y in re.findall(r'DUMA: (Allocating|Freeing) (\d+) byte', text)]
        if w[0] == 'L':
            who = {a: i for i, a in addr.items()}
            e['leaks'] = [[who.get(a, 9), pair(s), t] for a, s, t in re.findall(r"ptr=0x(?:0x)?([0-9a-f]+) size=(\d+) type='([^']*)' alloced from big\(", text)]
        ev.append(e)
        if r[0] in ('stop', 'died'):
            ev[-1]['text'] = text[-300:]
            break
    return ev


def run(exe, h, env, script):
    d = tempfile.mkdtemp(dir=engine.tmp(), prefix='big')
    try:
        open(d + '/s', 'w').write('\n'.join(script) + '\n')
        e = {k: v for k, v in os.environ.items() if not k.startswith('DUMA_')}
        e.update({'DUMA_' + k: v for k, v in env.items()})
        e['DUMA_MALLOC_FAILEXIT'] = '0'
        try:
            p = subprocess.run([exe, d + '/s', d + '/r', d + '/l'], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        except subprocess.TimeoutExpired:
            return None
        return convert(h, env, script, open(d + '/r').read().split('\n')[:-1], open(d + '/l', errors='replace').read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def blocks(check, heavy=True):
    T = check.thorough
    sets = [(e, c, n * 5 if T else n if heavy else n // 3) for e, c, n in SETS + (HEAVY + [SCENE] if heavy else [])]
    exe = build.harness('big.cpp', 'static')

    def gen(x):
        k, (env, cost, num) = x
        rc, out = engine.tlc(['-workers', '1', '-simulate', 'num=%d' % num, '-depth', '12', '-seed', str(check.seed * 50 + k), '-config', 'BigGen.cfg', 'BigGen.tla'],
                             dict(COST=cost, DEPTH=9, FILL=0 if env.get('FILL') == '-1' else 1, BELOW=env.get('PROTECT_BELOW', '0'), SCENE=int(heavy and k == len(sets) - 1)))
        if rc:
            raise engine.EngineError('generation failed\n' + out[-2000:])
        return [(env, cost, s) for s in engine.parse_scripts(out) if any(l[0] in 'AR' for l in s)]
    with ThreadPoolExecutor(engine.CPUS) as ex:
        got = list(ex.map(gen, enumerate(sets)))
    jobs = [x for g in got for x in g]
    light = [x for x in jobs if x[1] == 0]
    big = [x for x in jobs if x[1]]
    n = [0]

    def one(x):
        env, cost, s = x
        return x, run(exe, 1, env, s)
    # memory: one history that touches much at a time
    with ThreadPoolExecutor(5) as ex, ThreadPoolExecutor(1) as ex1:
        a, b = ex.map(one, light), ex1.map(one, big)
        done = list(a) + list(b)
    flat, outs = [], {}
    for x, ev in done:
        if ev is None:
            check.viol.append((['*:history-ends'], dict(kind='big', name='no end', clauses=[], script=x[2], env=x[0])))
            continue
        flat.append((x, [dict(e, h=len(flat) + 1) for e in ev]))
    for x, ev in flat:
        for e in ev:
            k = e['op'] + ':' + e['out']
            outs[k] = outs.get(k, 0) + 1
    parts = [flat[i::4] for i in range(4) if flat[i::4]]

    def judge(p):
        return engine.judge([{k: v for k, v in e.items() if k != 'text'} for _, ev in p for e in ev], module='BigTrace')
    with ThreadPoolExecutor(4) as ex:
        for v in ex.map(judge, parts):
            for h, k, cl in v:
                mine = [c for c in cl if check.counts(c)]
                if mine:
                    x, ev = flat[h - 1]
                    check.viol.append((mine, dict(kind='big', name='big blocks', clauses=cl, env=x[0], event=ev[k], script=x[2])))
    check.cov['traces_validated_against_impl'] += len(flat)
    check.cov['transitions'] += sum(len(ev) for _, ev in flat)
    check.notes['big_blocks'] = dict(histories=len(flat), outcomes=outs)


def light(check):
    blocks(check, heavy=False)
