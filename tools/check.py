#!/usr/bin/env python3
"""check.py <property> [quick|thorough]       decides one property
   check.py --replay FILE                      runs a recorded violation again

Exit 0: the property held on everything explored; 1: it is broken (a line
VIOLATION property=<id> replay=<path> is printed); 2: no answer."""
import json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine, plans, trace

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(build.VERIF, 'evidence')
FINDINGS = os.path.join(build.VERIF, 'known-findings.txt')

FL = {'newfl': 'new', 'newntfl': 'newnt', 'anewfl': 'anew', 'anewntfl': 'anewnt',
      'delfl': 'del', 'delntfl': 'delnt', 'adelfl': 'adel', 'adelntfl': 'adelnt', 'macdel': 'del', 'macadel': 'adel'}
GL = {'g' + x: x for x in ('malloc', 'calloc', 'memalign', 'posix', 'valloc', 'realloc0', 'strdup', 'free', 'realloc')}


def adapt(scripts, variant):
    """the interfaces a build variant does not have are replaced by their equivalents"""
    if variant not in trace.NOLD + ('noglobal',):
        return scripts
    m = FL if variant in trace.NOLD else GL
    out = []
    for s in scripts:
        t = []
        for ln in s:
            if ln == 'L' and variant in trace.NOLD:
                continue
            pre, w = [], ln.split(' ')
            if w[0] == 't':
                pre, w = w[:2], w[2:]
            elif w[0] in 'PQ' and len(w) > 1 and s[0][0] == '#':
                pre, w = w[:1], w[1:]
            if w == ['L'] and variant in trace.NOLD:
                continue
            if w[0] in 'AF' or w[0] == 'R':
                w = [m.get(x, x) for x in w]
            if w[0] == 'U' and variant == 'noglobal':
                w[-1] = 'd'
            t.append(' '.join(pre + w))
        out.append(t)
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.viol = []          # (what, replay dict)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.notes = {}
        self.known = []
        self.assume = []

    seed = SEED

    def adapt(self, scripts, variant):
        return adapt(scripts, variant)

    def counts(self, clause):
        tags = clause.split(':')[0]
        return tags == '*' or self.pid in tags.split(',')

    # ---------------------------------------------------------- histories
    def heap(self, plan):
        gens = {}
        for h in plan:
            k = self.genkey(h)
            gens[k] = max(gens.get(k, 0), h.n)

        def gen(item):
            (focus, depth, sim), n = item
            n = n * (6 if self.thorough else 1)
            return (focus, depth, sim), engine.generate(focus, depth, sim=n if sim else 0, seed=SEED * 1000 + 7)
        with ThreadPoolExecutor(engine.CPUS) as ex:
            got = dict(ex.map(gen, gens.items()))
        gstates = sum(st[0] for _, st in got.values())
        gtrans = sum(st[1] for _, st in got.values())
        jobs = []
        for hi, h in enumerate(plan):
            all_scripts = got[self.genkey(h)][0]
            for vi, v in enumerate(h.variants):
                scripts = adapt(all_scripts, v)
                for ei, e in enumerate(h.envs):
                    rnd = random.Random(SEED * 7919 + hi * 131 + vi * 17 + ei)
                    n = h.n * ((6 if h.sim else 8) if self.thorough else 1)
                    sc = scripts if len(scripts) <= n else [scripts[i] for i in sorted(rnd.sample(range(len(scripts)), n))]
                    if h.repeat > 1:
                        sc = [s * h.repeat + ['KA', 'X'] for s in sc]
                    jobs.append(engine.Job(sc, e, variant=v, policy=[0, 1, 2, 3], cfg=h.cfg,
                                           name='%s/%s/%s' % (h.focus, v, ','.join('%s=%s' % (k[5:], x) for k, x in e.items()))))
        self.run_jobs(jobs, 'histories', generator_states=gstates, generator_transitions=gtrans)
        self.cov['states'] += gstates
        self.cov['transitions'] += gtrans

    def run_jobs(self, jobs, note, **more):
        r = engine.execute(jobs)
        for j, si, n, cl, e, s in r.viols:
            mine = [c for c in cl if self.counts(c)]
            if not mine and e.get('out') in ('segv', 'hang', 'died', 'badexit') or \
                    (not mine and str(e.get('out', '')).startswith(('sig', 'code'))):
                mine = ['%s:unexpected-end' % self.pid]
            if mine:
                self.viol.append((mine, dict(kind='heap', env=j.env, variant=j.variant, policy=j.pol(si), cfg=j.cfg, harness=j.harness,
                                             name=j.name, n=n, clauses=cl, script=s, event=e)))
        self.cov['transitions'] += r.events
        self.cov['traces_validated_against_impl'] += r.histories
        self.notes[note] = dict(histories=r.histories, events=r.events, configurations=len(jobs),
                                calls=r.ops, outcomes=r.outs, distinct_call_kinds=len(r.kinds), **more)
        for x in r.samples[:2]:
            self.samples.append(x)
        return r

    def genkey(self, h):
        return (h.focus, h.deep if self.thorough and not h.sim else h.depth, h.sim)

    # ----------------------------------------------------------- findings
    def findings(self):
        out = []
        if os.path.exists(FINDINGS):
            for ln in open(FINDINGS):
                if ln.startswith('known: property=%s ' % self.pid):
                    out.append(ln.split(' ', 2)[2].strip())
        return out

    def run(self):
        t = time.time()
        plan = plans.PLANS.get(self.pid)
        if plan:
            self.heap(plan)
        for part in PARTS.get(self.pid, []):
            part(self)
        return self.finish(t)

    def finish(self, t):
        os.makedirs(EVID, exist_ok=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        cov = dict(self.cov)
        cov.update(self.notes)
        cov['samples'] = json.loads(json.dumps(self.samples[:4], default=str))
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level='model_checking', coverage=cov,
                  assumptions=self.assume or ASSUME, wall_s=round(time.time() - t, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if self.viol:
            self.viol.sort(key=lambda v: len(v[1].get('script', [])))
            path = os.path.join(EVID, self.pid + '.violation.json')
            with open(path, 'w') as f:
                json.dump([dict(d, broken=c) for c, d in self.viol[:20]], f, indent=1, default=str)
            seen = {}
            for c, d in self.viol:
                for x in c:
                    seen[x] = seen.get(x, 0) + 1
            for x, n in sorted(seen.items(), key=lambda y: -y[1])[:10]:
                print('  broken: %s (%d times)' % (x, n))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('ok: property=%s %s' % (self.pid, ' '.join('%s=%s' % (k, v) for k, v in self.cov.items())))
        return 0


ASSUME = ['mmap, munmap and mprotect are stand-ins inside one reserved address range; they apply the protections to the real pages',
          'Linux, 4096-byte pages, gcc, no optimisation']


def replay(path):
    for d in json.load(open(path))[:3]:
        print('----', d['name'], d['clauses'])
        if d['kind'] != 'heap':
            print(json.dumps(d, indent=1))
            continue
        j = engine.Job([d['script']], d['env'], variant=d['variant'], policy=d['policy'], cfg=d['cfg'], name=d['name'], harness=d.get('harness', 'seq.cpp'))
        r = engine.execute([j])
        for ln in d['script'][:max(d['n'], 1)]:
            print('   ', ln)
        for _, _, n, cl, e, _ in r.viols:
            print('  event', n, cl)
            print('   ', json.dumps(e))
        if not r.viols:
            print('  not reproduced')


PARTS = {}
try:
    import parts
    PARTS.update(parts.PARTS)
except ModuleNotFoundError:
    pass

if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        replay(sys.argv[2])
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        rc = Check(pid, tier).run()
    except build.BuildError as x:
        print('build failed: %s' % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
