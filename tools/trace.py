"""Turns the text traces written by harness/seq.cpp into events for the
TLA+ trace specification (one JSON object per line). Purely syntactic: it
resolves identifiers to addresses and parses messages; it judges nothing."""
import json, re

PAGE = 4096
NOLD = ('nold', 'sonold')   # build variants without leak detection
BIG = (1 << 30)          # sizes from here on cannot be satisfied by the arena
LOC = r'(.*?)\((-?\d+)\)'

DEFAULT_ENV = dict(align=1, below=0, fill=255, slack=0xAA, chkf=0, m0=3, n0=3, pf=-1, maxa=-1,
                   freeacc=0, show=0, failexit=1, rall=0)
ENV = {'DUMA_ALIGNMENT': 'align', 'DUMA_PROTECT_BELOW': 'below', 'DUMA_FILL': 'fill',
       'DUMA_SLACKFILL': 'slack', 'DUMA_CHECK_FREQ': 'chkf', 'DUMA_MALLOC_0_STRATEGY': 'm0',
       'DUMA_NEW_0_STRATEGY': 'n0', 'DUMA_PROTECT_FREE': 'pf', 'DUMA_MAX_ALLOC': 'maxa',
       'DUMA_FREE_ACCESS': 'freeacc', 'DUMA_SHOW_ALLOC': 'show', 'DUMA_MALLOC_FAILEXIT': 'failexit',
       'DUMA_REPORT_ALL_LEAKS': 'rall'}


def norm_file(f):
    f = f.strip()
    if f.startswith('UNKNOWN'):
        return 'UNKNOWN'
    if f in ('', '(null)', 'NULL'):
        return 'NULL'
    return f.rsplit('/', 1)[-1]


class Msg:
    """messages of one call"""

    def __init__(self, base):
        self.base = base
        self.logs, self.leaks, self.lr, self.lx, self.ca, self.cd = [], [], -1, -1, -1, -1
        self.abort = ''
        self.dg = dict(aa=-1, asz=-1, af='', al=-1, df='', dl=-1, an='', dn='', pa=-1)
        self.warn = 0
        self.junk = 0

    def off(self, h):
        v = int(h, 16) - self.base
        return v if 0 <= v < (1 << 31) else -2

    def feed(self, text):
        b = text
        for m in re.finditer(r"DUMA: ptr=0x([0-9a-fA-F]+) size=(\d+) type='(.*?)'(?: alloced from (.*)\((-?\d+)\))? not freed", b):
            self.leaks.append(dict(a=self.off(m.group(1)), size=int(m.group(2)), type=m.group(3),
                                   file=norm_file(m.group(4)) if m.group(4) is not None else '',
                                   line=int(m.group(5) or 0)))
        m = re.search(r'DUMA: Reported (-?\d+) leak\(s\)\.\nDUMA: There are (-?\d+) extra', b)
        if m:
            self.lr, self.lx = int(m.group(1)), int(m.group(2))
        m = re.search(r'DUMA: +Allocation\(s\): (-?\d+)\nDUMA: Deallocation\(s\): (-?\d+)', b)
        if m:
            self.ca, self.cd = int(m.group(1)), int(m.group(2))
        if 'DUMA warning' in b:
            self.warn += 1
        i = b.find('DUMA Aborting: ')
        if i >= 0:
            self.parse_abort(b[i + 15:])

    def log(self, k, size, f, l, af, al):
        f = norm_file(f or '')
        self.logs.append(dict(k=k, size=min(int(size), BIG), file=f, line=int(l or 0), af=norm_file(af) if k == 'd' else '', al=int(al or 0),
                              int=1 if f == 'duma.c' else 0))

    def feed_logs(self, b):
        """log lines in the order they were printed"""
        for m in re.finditer(r'DUMA: (Allocating|Freeing) (-?\d+) byte\(s\)([^\n]*)', b):
            rest = m.group(3)
            if m.group(1) == 'Allocating':
                x = re.match(r' at (.*)\((-?\d+)\)\.', rest)
                self.log('a', m.group(2), x.group(1) if x else '', x.group(2) if x else 0, '', 0)
            else:
                x = re.match(r' at (.*)\((-?\d+)\) \(Allocated from (.*)\((-?\d+)\)\)\.', rest)
                if x:
                    self.log('d', m.group(2), x.group(1), x.group(2), x.group(3), x.group(4))
                else:
                    self.log('d', m.group(2), '', 0, '', 0)

    def parse_abort(self, t):
        d = self.dg
        flat = ' '.join(t.split())

        def loc(pre, fk, lk, s=flat):
            m = re.search(pre + r'(.*?)\((-?\d+)\)', s)
            if m:
                f = m.group(1)
                # a file name may itself contain parentheses: UNKNOWN (use #include "duma.h")(0)
                m2 = re.search(pre + r'(UNKNOWN \(.*?\))\((-?\d+)\)', s)
                if m2:
                    f, l = m2.group(1), m2.group(2)
                else:
                    l = m.group(2)
                d[fk], d[lk] = norm_file(f), int(l)

        def addr(pre, k, s=flat):
            m = re.search(pre + r'([0-9a-fA-F]+)', s)
            if m:
                d[k] = self.off(m.group(1))
        if 'no mans land' in flat:
            self.abort = 'below' if 'below' in flat else 'above'
            addr('ptr=', 'aa')
            m = re.search(r'size=(\d+)', flat)
            if m:
                d['asz'] = int(m.group(1))
            loc('alloced from ', 'af', 'al')
        elif 'Free mismatch' in flat:
            self.abort = 'mismatch'
            m = re.search(r"allocator '(.*?)'", flat)
            d['an'] = m.group(1) if m else ''
            m = re.search(r"deallocator '(.*?)'", flat)
            d['dn'] = m.group(1) if m else ''
            loc('used at ', 'af', 'al')
            loc('called at ', 'df', 'dl')
        elif 'memory already freed' in flat:
            self.abort = 'freed'
            addr(r'(?:free|check|malloc_usable_size)\(', 'aa')
            loc('already freed at ', 'df', 'dl')
            loc('allocated from ', 'af', 'al')
        elif flat.startswith('free() called before first malloc'):
            self.abort = 'unknown'
            d['pa'] = -9       # no address in this message
        elif 'not from DUMA' in flat:
            self.abort = 'unknown'
            addr(r'(?:free|check)\(', 'pa')
            addr('corrupted from ', 'aa')
            loc(' allocated from ', 'af', 'al')
            loc('deallocated at ', 'df', 'dl')
        elif flat.startswith('Allocating 0 bytes'):
            self.abort = 'zero'
            loc('a bug at ', 'af', 'al')
        elif flat.startswith('Alignment'):
            self.abort = 'align'
            loc('requested from ', 'af', 'al')
        elif flat.startswith('realloc('):
            self.abort = 'realloc'
            addr(r'realloc\(', 'pa')
        elif flat.startswith('malloc_usable_size('):
            self.abort = 'usable'
            addr(r'malloc_usable_size\(', 'pa')
        elif flat.startswith('mmap('):
            self.abort = 'mmap'
        elif flat.startswith('mprotect('):
            self.abort = 'mprotect'
        elif 'overlap' in flat:
            self.abort = 'overlap'
        elif flat.startswith('Internal error') and 'slot' in flat:
            self.abort = 'slots'
        elif flat.startswith('Internal error'):
            self.abort = 'internal'
        else:
            self.abort = 'other'


def unesc(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out.append('\n' if s[i + 1] == 'n' else s[i + 1])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def parse_kv(s):
    d, ivs = {}, []
    for w in s.split():
        k, _, v = w.partition('=')
        if k == 'd':
            for t in v.split(','):
                if t:
                    ivs.append(tuple(int(x) for x in t.split(':')))
        elif k == 'u' or k == 'acc':
            d[k] = [tuple(int(x) for x in t.split(':')) for t in v.split(',') if t]
        else:
            d[k] = int(v)
    return d, ivs


def merge(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and out[-1][1] == lo:
            out[-1][1] = hi
        else:
            out.append([lo, hi])
    return out


def page_fields(e, ivs, un):
    e['up'] = merge([(a, b) for a, b, f, t in ivs if t >= 2 and f < 2])
    e['down'] = merge([(a, b) for a, b, f, t in ivs if f >= 2 and t < 2] + [(a, b) for a, b, f in un if f >= 2])
    e['unm'] = merge([(a, b) for a, b, f in un if f == 1])
    e['downm'] = merge([(a, b) for a, b, f in un if f >= 2])
    e['odd'] = sum(1 for a, b, f, t in ivs if t == 3)


# lines of harness/macro.cpp
MAC = dict(macdel=7001, macadel=7002, macfree=7003, macmalloc=7004, maccalloc=7005, macmemalign=7006, macposix=7007,
           macrealloc=7008, macvalloc=7009, macstrdup=7010, macnew=7012, macanew=7014)

PLAIN_NEW = {'new', 'newnt', 'anew', 'anewnt'}
PLAIN_DEL = {'del', 'delnt', 'adel', 'adelnt'}


def site(n, plain, dele=False, api=''):
    if api in MAC:
        return ('src_m.c', MAC[api])
    if plain:
        return ('NULL' if dele else 'UNKNOWN', 0)
    return ('src_%s.c' % 'abcdefghijklmnop'[n & 15], n)


def u64(s):
    return int(s) & ((1 << 64) - 1)


def config(env, variant, extra=None):
    c = dict(DEFAULT_ENV)
    for k, v in env.items():
        if k in ENV:
            c[ENV[k]] = int(v)
    for k in ('fill', 'slack'):
        if c[k] >= 0:
            c[k] &= 255
    for k, lo in (('m0', 0), ('n0', 2)):
        if not lo <= c[k] <= 3:
            c[k] = 3
    c['below'] = 1 if c['below'] else 0
    c['ld'] = 0 if variant in NOLD else 1
    c['so'] = 1 if variant in ('shared', 'sonold') else 0
    c['steady'] = c['half'] = c['slots'] = 0
    c['thr'] = 0 if variant == 'nothread' else 1
    c.update(extra or {})
    return c


def early(events, raw, start):
    """events of one history that began before the library was initialised: its
    start is that of a library initialised before (start), and what initialising
    printed does not belong to the call that caused it"""
    b = events[0]
    for k in ('mp', 'mp0', 'rw', 'acc0', 'leaks', 'lx', 'lr', 'na', 'nd'):
        b[k] = start[0][k]
    nas = [d['na'] for d in raw if d.get('na', -1) >= 0]
    b['nulladdr'] = nas[0] if nas else start[0]['nulladdr']
    up = False
    for e, d in zip(events[1:], raw):
        e['first'] = 0 if up else 1
        if not up:
            n = len(start[1])
            if e['logs'][:n] == start[1]:
                e['logs'] = e['logs'][n:]
            if not d.get('al', 0):
                e['tb'] = 1
                if e['op'] in 'LX' and b['c']['show'] and e['ca'] < 0:
                    e['ca'], e['cd'] = b['na'], b['nd']       # DUMA_SHOW_ALLOC is not read yet: no totals
        up = up or d.get('al', 0) == 1


def convert(path, cfg, hbase=0, meta=None, start=None):
    """trace file -> (events, scripts): scripts[h] = (header, [op lines])"""
    raws = {}
    meta = meta or {}
    lines = open(path, errors='replace').read().split('\n')
    base = na = 0
    events, scripts = [], []
    i = 0
    st = None
    cur = None
    h = hbase
    head = {}

    def messages(i, msg):
        text = ''
        while i < len(lines) and lines[i][:2] in ('M ', 'O '):
            if lines[i][0] == 'M':
                text += unesc(lines[i][2:])
            i += 1
        msg.feed_logs(text)
        msg.feed(text)
        return i

    while i < len(lines):
        ln = lines[i]
        tag = ln[:2]
        if tag == 'B ':
            d, _ = parse_kv(ln[2:])
            base, na = d['base'], d['na']
            head = d
            i += 1
            m = Msg(base)
            i = messages(i, m)
            convert.start_logs = m.logs
        elif tag == 'S ':
            name = ln[2:].split()[0]
            h += 1
            n = 0
            scripts.append((ln[2:], []))
            B = {}
            if start:
                na = -1
            i += 1
        elif tag == 'b ':
            d, ivs = parse_kv(ln[2:])
            m = Msg(base)
            i = messages(i + 1, m)
            c = dict(cfg)
            c.update(meta.get(name, {}))
            events.append(dict(op='begin', h=h, n=0, name=name, c=c, mp=d['mp'], mp0=d['mp'], rw=d['rw'],
                               nulladdr=na, acc0=[list(x) for x in d['acc']], leaks=m.leaks, lx=m.lx, lr=m.lr,
                               na=max(m.ca, 0), nd=max(m.cd, 0), tb=head.get('tb', -1), rt=1))
        elif tag == '> ':
            op = ln[2:]
            scripts[-1][1].append(op)
            n += 1
            i += 1
            if i < len(lines) and lines[i][:1] == '<' and op[0] != 'X':
                d, ivs = parse_kv(lines[i][1:])
                out = 'ret'
                i += 1
            elif i < len(lines) and lines[i].strip() == '<':
                d, ivs, out = {}, [], 'exit'
                i += 1
                m = Msg(base)
                i = messages(i, m)
                # the Z line follows
                z, _ = parse_kv(lines[i][1:])
                out = 'exit' if z['sig'] == 0 and z['code'] == 0 else 'badexit'
                j = messages(i + 1, m)
                i = j
                e = event(op, d, ivs, out, B, base, na, h, n, m, cfg)
                events.append(e)
                raws.setdefault(h, []).append(d)
                continue
            elif i < len(lines) and lines[i][:1] == 'Z':
                d, ivs = parse_kv(lines[i][1:])
                out = 'died'
                m = Msg(base)
                i = messages(i + 1, m)
                if m.abort and d['sig'] == 4:
                    out = 'abort:' + m.abort
                elif d['sig'] == 11 or d['sig'] == 7:
                    out = 'segv'
                elif d['sig'] == 14:
                    out = 'hang'
                elif d['sig']:
                    out = 'sig%d' % d['sig']
                else:
                    out = 'code%d' % d['code']
                events.append(event(op, d, [], out, B, base, na, h, n, m, cfg))
                raws.setdefault(h, []).append(d)
                continue
            else:
                i += 1
                continue
            m = Msg(base)
            i = messages(i, m)
            events.append(event(op, d, ivs, out, B, base, na, h, n, m, cfg))
            if start and d.get('na', -1) >= 0:
                na = d['na']
            raws.setdefault(h, []).append(d)
        else:
            i += 1
    if start:
        at = {}
        for e in events:
            at.setdefault(e['h'], []).append(e)
        for hh, ev in at.items():
            early(ev, raws.get(hh, []), start)
    if cfg.get('half'):        # the second half of a long history is compared with the first
        for i, e in enumerate(events):
            if e['op'] == 'begin':
                b = e
                b['c'] = dict(b['c'])
            b['c']['half'] = e['n'] // 2
    return events, scripts


def event(op, d, ivs, out, B, base, na, h, n, m, cfg):
    w = op.split()
    e = dict(op=w[0], h=h, n=n, out=out)
    page_fields(e, ivs, d.get('u', []))
    for k in ('rw', 'mp', 'mm', 'mf', 'ml', 'mq', 'uf', 'tb'):
        e[k] = d.get(k, -1)
    for k in ('lk', 'nl', 'hl'):
        e[k] = d.get(k, 0) if cfg.get('thr', 1) else 0
    e['logs'] = m.logs
    e['dg'] = 1 if m.abort and m.dg['pa'] != -9 else 0
    e['diag'] = m.dg
    e['file'], e['line'], e['a'], e['x'] = '', 0, -1, 0
    e['first'] = 0

    def target(ident, delta):
        ident, delta = int(ident), int(delta)
        if ident >= 0:
            a = B.get(ident, -1)
            return a + delta if a >= 0 else (-1 if delta == 0 else -300)
        if ident == -1:
            return -1 if delta == 0 else -300
        if ident == -2:
            return na + delta
        if ident == -5:
            return 8 * PAGE + delta
        return -100 + ident

    def hard(size, al):
        sz = u64(size)
        e['size'] = sz if sz < BIG else BIG
        e['big'] = 1 if sz >= BIG else 0
        a = u64(al)
        e['al'] = a if a < BIG else BIG
        e['alhuge'] = 1 if a > BIG and a & (a - 1) else 0
        if a >= BIG and not a & (a - 1) and sz:
            e['big'], e['size'] = 1, BIG

    o = w[0]
    if o == 'A':
        ident, api, size, al, s, seed = int(w[1]), w[2], w[3], w[4], int(w[5]), int(w[6])
        mac, api = api, api[3:] if api in MAC else api
        e['api'] = api
        if api in ('calloc', 'gcalloc'):
            p = u64(size) * u64(al)
            e['size'] = min(p, BIG)
            e['big'] = 1 if p >= BIG else 0
            e['al'], e['alhuge'] = 0, 0
        else:
            hard(size, al)
            if api not in ('memalign', 'gmemalign', 'posix', 'gposix'):
                e['al'], e['alhuge'] = 0, 0
        plain = api in PLAIN_NEW or api[0] == 'g'
        e['file'], e['line'] = site(s, plain, api=mac)
        e['seed'] = seed
        for k in ('r', 'rc', 'x', 'nc', 'nh', 'lo', 'hi', 'gl', 'gh', 'sb', 'fv', 'sa', 'wf'):
            e[k] = d.get(k, -99)
        e['sd'] = d.get('sd', 0)
        if out == 'ret':
            B[ident] = d['r']
    elif o == 'F':
        ident, api, s, delta = w[1], w[2], int(w[3]), w[4]
        e['api'] = api
        e['a'] = target(ident, delta)
        e['file'], e['line'] = site(s, api in PLAIN_DEL or api[0] == 'g', api in PLAIN_DEL, api)
        if api in MAC:
            e['api'] = api[3:]
        e['size'] = 0
        if api in ('realloc0', 'grealloc0'):      # realloc(p, 0)
            e['op'], e['api'], e['big'], e['al'], e['alhuge'], e['seed'] = 'R', api[:-1], 0, 0, 0, 0
            e['r'] = d.get('rr', -1)
            e['gl'] = 1
            for k in ('lo', 'hi', 'gh', 'sb', 'fv', 'sa', 'wf', 'pf', 'tv'):
                e[k] = -1
    elif o == 'R':
        nid, ident, api, size, s, seed, delta = int(w[1]), w[2], w[3], w[4], int(w[5]), int(w[6]), w[7]
        e['api'] = api
        e['a'] = target(ident, delta)
        hard(size, 0)
        e['file'], e['line'] = site(s, api[0] == 'g', api=api)
        e['seed'] = seed
        if api in MAC:
            e['api'] = api[3:]
        for k in ('r', 'lo', 'hi', 'gl', 'gh', 'sb', 'fv', 'sa', 'wf', 'pf', 'tv'):
            e[k] = d.get(k, -99)
        if out == 'ret' and nid >= 0:
            B[nid] = d['r']
    elif o in ('W', 'P'):
        e['loc'] = target(w[1], w[2])
        if 'a' in d:
            e['loc'] = d['a']
        e['val'] = int(w[3]) & 255 if o == 'W' else 0
        e['s'] = d.get('s', -9)
    elif o == 'K':
        e['a'] = target(w[1], w[2])
    elif o == 'U':
        e['a'] = target(w[1], w[2])
        e['us'] = d.get('us', -1)
    elif o == 'T':
        e['a'] = target(w[1], 0)
        e['seed'] = int(w[2])
    elif o == 'V':
        e['a'] = target(w[1], 0)
        e['pf'] = d.get('pf', -1)
    elif o == 'S':
        e['what'], e['val'] = w[1], int(w[2])
        if e['what'] == 'fill' and e['val'] >= 0:
            e['val'] &= 255
    elif o == 'I':
        e['after'], e['count'] = int(w[1]), int(w[2])
    elif o == 'J':
        e['val'] = int(w[1])
    elif o == 'N':
        e['mode'], e['k'] = int(w[1]), int(w[2])
    if o == 'G':
        e['op'] = 'G'
    if o in ('L', 'X'):
        e['leaks'], e['lr'], e['lx'], e['ca'], e['cd'] = m.leaks, m.lr, m.lx, m.ca, m.cd
    return e


def convert_mt(path, cfg, meta=None):
    """trace of harness/mt.cpp -> (heap events in the order of the critical
    sections, lock events)"""
    lines = open(path, errors='replace').read().split('\n')
    base = na = 0
    events, locks, h = [], [], 0
    recs, pend, name, npre = [], {}, '', 0

    def text(i, m):
        while i < len(lines) and lines[i][:2] in ('M ', 'O '):
            if lines[i][0] == 'M':
                t = unesc(lines[i][2:])
                m.feed_logs(t)
                m.feed(t)
            i += 1
        return i
    i = 0
    while i < len(lines):
        ln = lines[i]
        tag = ln[:2]
        if tag == 'B ':
            d, _ = parse_kv(ln[2:])
            base, na = d['base'], d['na']
            i += 1
        elif tag == 'S ':
            h += 1
            name = ln[2:].split()[0]
            recs, pend = [], {}
            i += 1
        elif tag == 'b ':
            d, _ = parse_kv(ln[2:])
            m = Msg(base)
            i = text(i + 1, m)
            c = dict(cfg)
            c.update((meta or {}).get(name, {}))
            events.append(dict(op='begin', h=h, n=0, name=name, c=c, mp=d['mp'], mp0=d['mp'], rw=d['rw'], nulladdr=na, tb=-1, rt=4,
                               acc0=[list(x) for x in d['acc']], leaks=m.leaks, lx=m.lx, lr=m.lr, na=max(m.ca, 0), nd=max(m.cd, 0)))
            last = d
        elif tag == '> ':
            t, _, op = ln[2:].partition(' ')
            pend[t] = dict(t=t, op=op, at=i, d=None, ivs=[], out=None, m=Msg(base))
            recs.append(pend[t])
            i += 1
        elif tag == 'C ':
            d, ivs = parse_kv(ln[2:])
            r = pend.get(str(d['t']))
            if r is not None:
                if r['d'] and (r['ivs'] or r['d'].get('u')):
                    recs.append(dict(t=r['t'], op='G', at=r['at'], d=r['d'], ivs=r['ivs'], out='ret', m=Msg(base)))
                r['d'], r['ivs'], r['at'] = d, ivs, i
            last = d
            i += 1
        elif tag == '< ':
            t, _, rest = ln[2:].partition(' ')
            d, _ = parse_kv(rest)
            if pend[t]['op'][0] == 'X':
                i += 1
                continue
            r = pend.pop(t)
            if r['d'] is None:
                r['d'] = {k: v for k, v in last.items() if k in ('rw', 'mp', 'tb')}
                r['at'] = i
            r['d'].update(d)
            r['out'] = 'ret'
            i = text(i + 1, r['m'])
        elif tag == 'Z ':
            d, _ = parse_kv(ln[2:])
            m = Msg(base)
            i = text(i + 1, m)
            cur = '-1' if d['cur'] in (-1, 4) else str(d['cur'])
            for t, r in list(pend.items()):
                if t == cur and (d['sig'] or d['code']) and d['code'] != 77:
                    r['out'] = 'abort:' + m.abort if m.abort and (d['sig'] == 4 or d['code'] == 255) else 'segv' if d['sig'] in (7, 11) else \
                        'hang' if d['sig'] == 14 else 'sig%d' % d['sig'] if d['sig'] else 'code%d' % d['code']
                    r['m'], r['d'], r['ivs'], r['at'] = m, d, [], 10 ** 9
                elif r['op'][0] == 'X' and t == cur and d['sig'] == 0 and d['code'] == 0:
                    r['out'], r['m'], r['at'] = 'exit', m, 10 ** 9
                    r['d'], r['ivs'] = {}, []
                elif r['d'] is not None and r['op'].split()[0] == 'F' and r['op'].split()[2] not in ('realloc0', 'grealloc0'):
                    r['out'] = 'ret'      # took effect, had only to return
            recs = [r for r in recs if r['out'] is not None]
            recs.sort(key=lambda r: r['at'])
            B = {}
            for n, r in enumerate(recs):
                e = event(r['op'], r['d'], r['ivs'], r['out'], B, base, na, h, n + 1, r['m'], cfg)
                e['t'] = int(r['t'])
                events.append(e)
        elif tag == 'L ':
            w = ln[2:].split(' ')
            locks.append(dict(h=h, k=0, t=-1, over=int(w[0])))
            for x in (w[1] if len(w) > 1 else '').split(','):
                if x:
                    t, k, a = x.split(':')
                    locks.append(dict(h=h, k=int(k), t=int(t), over=0))
            i += 1
        else:
            i += 1
    return events, locks


def write(events, path):
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e, separators=(',', ':')) + '\n')
