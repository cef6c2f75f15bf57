"""Generation (TLC), execution (harness) and judgement (TLC) of histories."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build, trace

VERIF = build.VERIF
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = 8


class EngineError(Exception):
    pass


_tmp = None


def tmp():
    """scratch directory of this run, removed at exit"""
    global _tmp
    if _tmp is None:
        import atexit
        _tmp = tempfile.mkdtemp(prefix='dumaverif.')
        atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp


def tlc(args, env=None, timeout=800, heap='2g'):
    md = tempfile.mkdtemp(dir=tmp())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR + ':' + CM,
           '-Djava.io.tmpdir=' + md, 'tlc2.TLC', '-noTE', '-metadir', md] + args
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        raise EngineError('TLC timed out: ' + ' '.join(args))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, out


# ------------------------------------------------------------- generation
def parse_scripts(out):
    res = []
    for ln in out.split('\n'):
        if ln.startswith('"SCRIPT '):
            res.append([x.replace('"', '') for x in json.loads(json.loads(ln)[7:])])
    return res


def generate(focus, depth, sim=0, seed=1, module='HeapGen'):
    """scripts of one focus; sim: number of simulated histories, 0: exhaustive"""
    env = dict(FOCUS=focus, DEPTH=depth, SIM=1 if sim else 0)
    if sim:
        args = ['-workers', '1', '-simulate', 'num=%d' % sim, '-depth', str(depth + 5 if module == 'HeapGen' else 3 * depth + 30), '-seed', str(seed),
                '-config', module + 'Sim.cfg', module + '.tla']
    else:
        args = ['-workers', '1', '-config', module + 'All.cfg', module + '.tla']
    rc, out = tlc(args, env)
    if rc != 0:
        raise EngineError('generation %s failed (%d)\n%s' % (focus, rc, out[-3000:]))
    scripts = parse_scripts(out)
    if sim and module == 'HeapGen':  # TLC prints every candidate for the last step: keep one per history
        seen, keep = set(), []
        for s in scripts:
            k = tuple(s[:max(1, depth - 2)]) if len(s) >= depth else tuple(s)
            if k not in seen:
                seen.add(k)
                keep.append(s)
        scripts = keep
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    stats = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
    if not scripts:
        raise EngineError('generation %s gave no scripts\n%s' % (focus, out[-2000:]))
    return scripts, stats


# -------------------------------------------------------------- execution
def run_scripts(exe, scripts, env, tag, policies, timeout=600):
    """runs scripts (lists of lines); returns the trace file"""
    d = tempfile.mkdtemp(dir=tmp(), prefix=tag)
    with open(d + '/scr', 'w') as f:
        for i, s in enumerate(scripts):
            if s[0][0] == '#':
                f.write('S s%d %d %s\n%s\nE\n' % (i, policies[i], s[0][1:], '\n'.join(s[1:])))
            else:
                f.write('S s%d %d\n%s\nE\n' % (i, policies[i], '\n'.join(s)))
    open(d + '/err', 'w').close()
    open(d + '/out', 'w').close()
    e = {k: v for k, v in os.environ.items() if not k.startswith('DUMA_')}
    e.update({k: str(v) for k, v in env.items()})
    if os.path.exists(exe + '.vars'):
        e['H_VARS'] = exe + '.vars'
    with open(d + '/err', 'a') as fe, open(d + '/out', 'a') as fo:
        try:
            p = subprocess.run([exe, d + '/scr', d + '/trace', d + '/err', d + '/out'], cwd=d, env=e,
                               stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -999
    return d, rc


def judge(events, tag='t', module='HeapTrace', timeout=800):
    """TLC judges one list of events; returns [(h, n, [clauses])], stats"""
    d = tempfile.mkdtemp(dir=tmp(), prefix=tag)
    path = d + '/t.ndjson'
    trace.write(events, path)
    for stop in (0, 1):
        rc, out = tlc(['-workers', '1', '-config', module + '.cfg', module + '.tla'], dict(TRACE=path, STOP=stop), timeout)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        if rc == 0 and m and m.group(1) == m.group(2):
            break
        # an event the specification has no meaning for, e.g. after a broken clause
        if not re.search(r'Attempted to|CHOOSE|evaluat', out) or 'Parsing or semantic' in out:
            i = out.find('Error:')
            raise EngineError('trace validation failed (%d)\n%s' % (rc, out[i:i + 3000] + '\n...\n' + out[-1500:]))
    else:
        i = out.find('Error:')
        viols0 = [(events[0]['h'], 0, ['*:not-a-behaviour'])]
        return viols0
    viols = []
    for m in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        viols.append((int(m.group(1)), int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3))))
    return viols


def shards(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


class Job:
    """one set of scripts under one configuration"""

    def __init__(self, scripts, env=None, variant='static', policy=1, cfg=None, name='', harness='seq.cpp', libextra=(), tag=''):
        self.scripts, self.env, self.variant, self.policy = scripts, env or {}, variant, policy
        self.cfg, self.name, self.harness, self.libextra, self.tag = cfg or {}, name, harness, libextra, tag

    def pol(self, i):
        return self.policy if isinstance(self.policy, int) else self.policy[i % len(self.policy)]


class Result:
    def __init__(self):
        self.viols = []      # (job, script index, n, clauses, event, script lines)
        self.events = 0
        self.histories = 0
        self.locks = 0       # lock events
        self.ops = {}
        self.outs = {}
        self.samples = []
        self.kinds = set()


def execute(jobs, split=CPUS):
    """runs and judges all jobs; everything in parallel"""
    exes = {}
    for j in jobs:
        k = (j.harness, j.variant, tuple(j.libextra), j.tag)
        if k not in exes:
            exes[k] = build.harness(j.harness, j.variant, libextra=j.libextra, tag=j.tag)
        j.exe = exes[k]
    total = sum(sum(len(s) for s in j.scripts) for j in jobs) or 1
    units = []
    for j in jobs:
        w = sum(len(s) for s in j.scripts)
        n = max(1, min(split, (w * split * 2) // total, (w // 400) + 1))
        for part in shards(list(range(len(j.scripts))), n):
            units.append((j, part, sum(len(j.scripts[i]) for i in part)))
    units.sort(key=lambda u: -u[2])

    def one(u):
        j, part, _ = u
        d, rc = run_scripts(j.exe, [j.scripts[i] for i in part], j.env, 'r', [j.pol(i) for i in part])
        try:
            if rc != 0:
                err = open(d + '/err', errors='replace').read()[-1500:]
                return (j, part, None, None, 'harness ended with %d\n%s' % (rc, err))
            cfg = trace.config(j.env, j.variant, j.cfg)
            if j.harness == 'mt.cpp':
                events, locks = trace.convert_mt(d + '/trace', cfg)
            else:
                events, locks = trace.convert(d + '/trace', cfg)[0], None
        finally:
            shutil.rmtree(d, ignore_errors=True)
        nh = sum(1 for e in events if e['op'] == 'begin')
        if nh != len(part):
            return (j, part, None, None, 'harness ran %d of %d scripts' % (nh, len(part)))
        # several units may share one TLC run only if small; keep it simple
        v = judge(events)
        if locks:
            v = v + judge(locks, module='LockTrace')
        return (j, part, events, v, None if not locks else len(locks))

    res = Result()
    with ThreadPoolExecutor(split) as ex:
        for j, part, events, v, err in ex.map(one, units):
            if isinstance(err, int):
                res.locks += err
            elif err:
                res.viols.append((j, part[0], 0, ['*:' + err.split('\n')[0]], {'op': 'start', 'out': err}, []))
                continue
            res.events += len(events)
            res.histories += len(part)
            byhn = {}
            for e in events:
                key = e['op'] + (':' + e['api'] if 'api' in e else '')
                res.ops[key] = res.ops.get(key, 0) + 1
                if e['op'] != 'begin':
                    o = e['out']
                    if o == 'ret' and e['op'] == 'A':
                        o = 'throw' if e['x'] else 'null' if e['r'] == -1 else 'ptr'
                    res.outs[o] = res.outs.get(o, 0) + 1
                    res.kinds.add((j.name, key, o, e.get('size', e.get('s', 0)), e.get('al', 0)))
                byhn[(e['h'], e['n'])] = e
            if v:
                for h, n, cl in v:
                    si = part[h - 1]
                    res.viols.append((j, si, n, cl, byhn.get((h, n), {}), j.scripts[si]))
            if len(res.samples) < 3 and events:
                res.samples.append([e for e in events if e['h'] == 1][:6])
    return res
