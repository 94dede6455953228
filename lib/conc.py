"""C17, C18, C19: threads.

Scripts for harness/conc.c: programs of two or three threads on a database in
some state.  Runs under chosen schedules give histories that spec/Lin.tla
judges; sequential runs give what locks and memory every call uses, of which
spec/Locks.tla explores all interleavings."""
import hashlib, json, os, re
from concurrent.futures import ThreadPoolExecutor
from gen import BAD, ZERO, bits_key
from vlib import JOBS, CheckError

BIG = 'r1024:9'


class Setup:
    """A state of the database to start from: lines, keys present in the
    newest contents, missing keys, registers of roots."""

    def __init__(self, name, lines, have, miss, roots, shared=False, iters=False, after=()):
        self.name, self.lines, self.have, self.miss, self.roots = name, lines, have, miss, roots
        self.shared, self.iters, self.after = shared, iters, list(after)


def keys(rng):
    base = rng.getrandbits(256)
    return [bits_key(base, s) for s in ([], [3], [3, 9], [130], [3, 9, 200], [255], [0])]


def setups(rng):
    k = keys(rng)
    val = lambda: 'r%d:%d' % (rng.choice([1, 20, 60, 113, 300]), rng.randrange(1, 10 ** 6))
    hist = lambda: ['open', 'ins %s %s' % (k[0], val()), 'root =1', 'ins %s %s' % (k[1], val()), 'ins %s %s' % (k[2], val()), 'root =2',
                    'rem %s' % k[1], 'ins %s %s' % (k[3], val()), 'root =3']
    lim = 'limits 420 2 60 380'
    have, miss = [k[0], k[2], k[3]], [k[1], k[4], k[5], k[6]]
    out = [
        Setup('fresh', ['limits 2147483647 32 1048576 1048576', 'open'], [], k, []),
        Setup('new', [lim] + hist(), have, miss, [1, 2, 3]),
        Setup('reopened', [lim] + hist() + ['close', 'open'], have, miss, [1, 2, 3]),
        Setup('reopened-big', ['limits 2147483647 32 1048576 1048576'] + hist() + ['close', 'open'], have, miss, [1, 2, 3]),
        Setup('seen', [lim] + hist() + ['close', 'open', 'get %s $1' % k[0], 'get %s $2' % k[0], 'get %s' % k[3]], have, miss, [1, 2, 3]),
        Setup('reverted', [lim] + hist() + ['close', 'open', 'revert $2'], [k[0], k[1], k[2]], k[3:], [1, 2, 3]),
        Setup('shared', [lim] + hist() + ['close', 'open', 'tx t0', 'txins t0 %s %s' % (k[4], val()), 'txins t0 %s %s' % (k[0], val())],
              [k[0], k[2], k[4]], [k[1], k[5]], [1, 2, 3], True),
        Setup('shared-hashed', [lim] + hist() + ['tx t0', 'txins t0 %s %s' % (k[4], val()), 'txroot t0'],
              [k[0], k[2], k[4]], [k[1], k[5]], [1, 2, 3], True),
        Setup('shared-done', [lim] + hist() + ['tx t0', 'txins t0 %s %s' % (k[4], val()), 'commit t0', 'root =4'],
              [k[0], k[2], k[4]], [k[1], k[5]], [1, 2, 3, 4], True),
        Setup('shared-old', [lim] + hist() + ['close', 'open', 'tx t0 $2'], [k[0], k[1], k[2]], [k[3], k[4], k[5]], [1, 2, 3], True),
        Setup('iterating', [lim] + hist() + ['close', 'open', 'iter i0 $2'], have, miss, [1, 2, 3], iters=True, after=['idel i0']),
        Setup('tx-iterating', [lim] + hist() + ['close', 'open', 'tx t0', 'txins t0 %s %s' % (k[4], val()), 'txiter i0 t0', 'next i0'],
              have + [k[4]], [k[1], k[5]], [1, 2, 3], True, iters=True, after=['idel i0']),
    ]
    return out


def programs(s, rng):
    """name -> lines with {n} for what differs between threads."""
    p = {}
    P = s.have or s.miss[:1]
    a, b = P[0], P[-1]
    m = s.miss[-1]
    fresh = '%064x' % rng.getrandbits(256)
    val = lambda: 'r%d:%d' % (rng.choice([1, 20, 60, 300]), rng.randrange(1, 10 ** 6))
    p['get'] = ['get ' + a]
    p['get2'] = ['get ' + b, 'get ' + a]
    p['get-miss'] = ['get ' + m]
    p['has'] = ['has ' + b]
    p['prove'] = ['prove ' + a]
    p['prove-miss'] = ['prove ' + m]
    p['root'] = ['root']
    p['iter'] = ['iter i{n}', 'next i{n}', 'next i{n} k', 'idel i{n}']
    p['get-bad'] = ['get %s %s' % (a, BAD)]
    p['tx-read'] = ['tx t{n}', 'txget t{n} ' + a, 'txroot t{n}', 'txprove t{n} ' + b, 'txdel t{n}']
    p['tx-bad'] = ['tx t{n} ' + BAD]
    if s.roots:
        o, h = '$%d' % s.roots[0], '$%d' % s.roots[-2]
        p['get-old'] = ['get %s %s' % (a, o)]
        p['get-old2'] = ['get %s %s' % (a, h), 'has %s %s' % (b, o)]
        p['has-old'] = ['has %s %s' % (b, h)]
        p['prove-old'] = ['prove %s %s' % (a, h)]
        p['iter-old'] = ['iter i{n} ' + o, 'next i{n}', 'idel i{n}']
        p['tx-old'] = ['tx t{n} ' + o, 'txget t{n} ' + a, 'txroot t{n}', 'txdel t{n}']
    if s.iters:
        # the thread that made i0 holds it: others only read
        p['next'] = ['next i0']
        p['next2'] = ['next i0', 'next i0 k', 'next i0']
        if s.shared:
            p['txget'] = ['txget t0 ' + a]
            p['txhas'] = ['txhas t0 ' + m]
        # what has to wait for the iterator's end would wait for ever
        p = {x: p[x] for x in p if x in ('get', 'get2', 'has', 'root', 'iter', 'next', 'next2', 'txget', 'txhas')}
        return p
    p['ins-new'] = ['ins %s %s' % ('{f}', val())]
    p['ins-upd'] = ['ins %s %s' % (a, val())]
    p['ins-big'] = ['ins %s %s' % (a, BIG)]
    p['ins2'] = ['ins %s %s' % ('{f}', val()), 'ins %s %s' % ('{g}', val())]
    p['rem'] = ['rem ' + a]
    p['rem-miss'] = ['rem ' + m]
    p['ins-get'] = ['ins %s %s' % (m, val()), 'get ' + m]
    p['revert-bad'] = ['revert ' + BAD]
    p['revert-zero'] = ['revert ' + ZERO]
    p['tx-write'] = ['tx t{n}', 'txins t{n} {f} ' + val(), 'txrem t{n} ' + a, 'commit t{n}', 'txdel t{n}']
    p['tx-again'] = ['tx t{n}', 'txins t{n} {f} ' + val(), 'txroot t{n}', 'txclear t{n}', 'txins t{n} {g} ' + val(), 'txprove t{n} {g}',
                     'commit t{n}', 'txiter i{n} t{n}', 'next i{n}', 'idel i{n}', 'txdel t{n}']
    if s.roots:
        p['revert'] = ['revert ' + o]
        p['revert2'] = ['revert ' + h, 'root']
        p['tx-inject'] = ['tx t{n}', 'txinject t{n} ' + o, 'txget t{n} ' + a, 'txinject t{n} ' + BAD, 'commit t{n}', 'txdel t{n}']
    if s.shared:
        p['txget'] = ['txget t0 ' + a]
        p['txget2'] = ['txget t0 ' + b, 'txhas t0 ' + m]
        p['txhas'] = ['txhas t0 ' + b]
        p['txprove'] = ['txprove t0 ' + a]
        p['txprove-miss'] = ['txprove t0 ' + m]
        p['txroot'] = ['txroot t0']
        p['txins'] = ['txins t0 {f} ' + val()]
        p['txins-upd'] = ['txins t0 %s %s' % (a, val())]
        p['txins-big'] = ['txins t0 %s %s' % (a, BIG)]
        p['txins2'] = ['txins t0 {f} ' + val(), 'txins t0 {g} ' + val()]
        p['txrem'] = ['txrem t0 ' + b]
        p['txrem-miss'] = ['txrem t0 ' + m]
        p['txclear'] = ['txclear t0']
        p['txinject'] = ['txinject t0 ' + o]
        p['txinject-bad'] = ['txinject t0 ' + BAD]
        p['commit'] = ['commit t0']
        p['txins-commit'] = ['txins t0 {f} ' + val(), 'commit t0']
        p['txiter'] = ['txiter i{n} t0', 'next i{n}', 'next i{n}', 'idel i{n}']
    return p


FAULTS = ['fault open,read,pread,mmap 1 0 err EIO', 'fault open,read,pread,mmap 2 0 err EIO', 'fault pread,mmap 1 0 err EIO',
          'fault malloc 1 0 err ENOMEM', 'fault write,pwrite 1 0 err ENOSPC', 'fault write,pwrite,open 2 0 err EIO', 'fault open 1 0 err EMFILE',
          'fault trunc,fstat,stat,lseek 1 0 err EIO']
FAULTS = [f for f in FAULTS if 'malloc' not in f]


def faulty(progs, rng):
    """The programs whose system calls fail."""
    return {'%s!%d' % (n, j): [f] + ls + ['faultoff'] for n, ls in progs.items() if 'next' not in n
            for j, f in enumerate(FAULTS)}


def fill(lines, n, rng):
    f, g = '%064x' % rng.getrandbits(256), '%064x' % rng.getrandbits(256)
    return ['T %d %s' % (n, l.replace('{n}', str(n + 1)).replace('{f}', f).replace('{g}', g)) for l in lines]


def final(s):
    out = list(s.after) + ['root', 'dump - rgi']
    if s.shared:
        out += ['dump t0 rgi', 'txdel t0']
    return out + ['close', 'stat', 'open', 'dump - gi', 'close']


def block(s, progs, run, rng_seed, rng):
    import random
    r = random.Random(rng_seed)
    out = ['new conc', 'keys ' + ' '.join(s.have + s.miss)] + s.lines
    for n, p in enumerate(progs):
        out += fill(p, n, r)
    return out + [run] + final(s)


# ------------------------------------------------------------------ running
def drive_all(ctx, blocks, each, kind='conc'):
    """Runs the blocks in several drivers; calls each(index, events)."""
    ctx.driver(kind)
    idx = list(range(len(blocks)))
    np = max(JOBS * 2, len(blocks) // 250)
    parts = [idx[j::np] for j in range(np)]

    def go(part):
        if not part:
            return
        tf, rc, txt = ctx.drive('\n'.join('\n'.join(blocks[j]) for j in part) + '\n', kind)
        cur, n = None, -1
        got = []
        for l in open(tf):
            l = l.rstrip('\n')
            if l.startswith('{"op":"new"'):
                got.append([])
            got[-1].append(l)
        os.unlink(tf)
        if len(got) != len(part) and not re.match(r'\{"op":"died"', got[-1][-1] if got else ''):
            raise CheckError('driver failed (%d): %s' % (rc, txt[-2000:]))
        for j, ev in zip(part, got):
            each(j, ev)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(go, parts))


def strip(ev):
    """The events without what differs between equal histories."""
    out = []
    for l in ev:
        if l.startswith('{"op":"record"'):
            continue
        if l.startswith('{"op":"nocut"'):
            l = '{"op":"nocut"}'
        if l.startswith('{"op":"new"'):
            l = '{"op":"new","n":0,"name":""}'
        out.append(re.sub(r'"pos":\[\d+,\d+\]', '"pos":[0,0]', l))
    return out


class Histories:
    """Collects distinct histories and has Lin judge them."""

    def __init__(self, ctx, module='Lin'):
        self.module = module
        self.ctx, self.seen, self.todo, self.total, self.sample = ctx, set(), [], 0, ''

    def add(self, block, ev):
        s = strip(ev)
        t = '\n'.join(s) + '\n'
        h = hashlib.sha256(t.encode()).digest()
        with self.ctx.lock:
            self.total += 1
            if h not in self.seen:
                self.seen.add(h)
                self.todo.append((block, s, t))

    def judge(self):
        todo, self.todo = self.todo, []
        if todo:
            self.sample = '\n'.join(todo[len(todo) // 2][0])
        parts, load = [[] for _ in range(JOBS)], [0] * JOBS
        for x in todo:
            j = load.index(min(load))
            parts[j].append(x)
            load[j] += len(x[2]) + 2000

        def go(part):
            while part:
                fn = os.path.join(self.ctx.work, 'lin-%s' % hashlib.sha256(part[0][2].encode()).hexdigest()[:16])
                with open(fn, 'w') as f:
                    f.write(''.join(x[2] for x in part))
                bad = self.ctx.judge(fn, 0, self.module)
                os.unlink(fn)
                if bad is None:
                    return
                for n, (b, s, t) in enumerate(part):
                    if bad < len(s):
                        break
                    bad -= len(s)
                self.ctx.report('\n'.join(b) + '\n', s[min(bad, len(s) - 1)], '', s, min(bad, len(s) - 1),
                                what='history not allowed by spec/%s.tla (run with the driver of harness/%s.c)' % (
                                    self.module, 'conc' if self.module == 'Lin' else 'multi'))
                if len(self.ctx.violations) > 3:
                    return
                part = part[n + 1:]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(go, [p for p in parts if p]))
        with self.ctx.lock:
            for b, s, t in todo:
                self.ctx.cov['events'] += len(s)
                self.ctx.distinct.add(hashlib.sha256(t.encode()).digest())
                for l in s:
                    m = re.match(r'\{"op":"inv",(?:"p":\d+,)?"e":\{"op":"(\w+)"', l)
                    if m:
                        self.ctx.kinds[m.group(1)] = self.ctx.kinds.get(m.group(1), 0) + 1
            self.ctx.cov['scripts'] += len(todo)


def yields_of(ev):
    for l in ev:
        if l.startswith('{"op":"nocut"'):
            return json.loads(l).get('yields', 0)
    return 0


# ---------------------------------------------------------------------- C17
def choose(ctx, rng, n):
    """Groups of programs on a setup: [(setup, [(name, lines)..])]."""
    ss = setups(rng)
    allp = []
    for s in ss:
        p = programs(s, rng)
        names = sorted(p)
        for i, x in enumerate(names):
            for y in names[i:]:
                allp.append((s, [(x, p[x]), (y, p[y])]))
    rng.shuffle(allp)
    two = allp if n is None else allp[:n]
    three = []
    for s in ss:
        p = programs(s, rng)
        names = sorted(p)
        for _ in range((n or len(allp)) // 30):
            g = [rng.choice(names) for _ in range(3)]
            three.append((s, [(x, p[x]) for x in g]))
    return two + three


def schedule_runs(ctx, H, groups, per, rng, wps=(0, 1)):
    """Phase one: without preemption, to learn the number of stops.  Phase
    two: chosen preemptions."""
    blocks, info = [], []
    for gi, (s, g) in enumerate(groups):
        seed = rng.getrandbits(64)
        progs = [x[1] for x in g]
        for st in range(len(g)):
            for fine in (0, 1):
                if fine and st:
                    continue
                blocks.append(block(s, progs, 'run %d -%s' % (st, ' fine' if fine else ''), seed, rng))
                info.append((gi, seed, st, fine))
    ys = {}

    def first(j, ev):
        gi, seed, st, fine = info[j]
        ys[gi, st, fine] = (yields_of(ev), seed)
        H.add(blocks[j], ev)
    drive_all(ctx, blocks, first)
    blocks2 = []
    for gi, (s, g) in enumerate(groups):
        progs = [x[1] for x in g]
        for st in range(len(g)):
            n, seed = ys[gi, st, 0]
            if not n:
                continue
            picks = []
            for _ in range(per // len(g)):
                c = rng.choice([1, 1, 1, 2, 2, 3, 4])
                picks.append(sorted(rng.sample(range(1, n + 1), min(n, c))))
            for q in picks:
                wp = rng.choice(wps)
                blocks2.append(block(s, progs, 'run %d %s%s' % (st, ','.join(map(str, q)), ' wp' if wp else ''), seed, rng))
        n, seed = ys[gi, 0, 1]
        for _ in range(per // 5):
            q = sorted(rng.sample(range(1, n + 1), min(n, rng.choice([1, 1, 2, 3]))))
            blocks2.append(block(s, progs, 'run 0 %s fine' % ','.join(map(str, q)), seed, rng))
    drive_all(ctx, blocks2, lambda j, ev: H.add(blocks2[j], ev))
    return len(blocks) + len(blocks2)


def c17(ctx):
    rng = ctx.rng
    H = Histories(ctx)
    n = schedule_runs(ctx, H, choose(ctx, rng, ctx.n(600, 3000)), ctx.n(24, 60), rng)
    H.judge()
    ctx.samples = ctx.samples or [H.sample]
    ctx.extra = {'runs': n, 'distinct_histories': len(ctx.distinct)}


# ------------------------------------------------------------------- records
def recorded(ev):
    """Events of a block -> (progs, base, what went wrong)."""
    bad = None
    for l in ev:
        m = re.match(r'\{"op":"(badlock|deadlock|livelock|toolong|died)"', l)
        if m and not bad:
            bad = l
    for l in ev:
        if l.startswith('{"op":"record"'):
            r = json.loads(l)
            return r['progs'], r['base'], bad
    return None, 0, bad or ev[-1]


def items(prog, base, locks_only=False):
    """Recorded items as Locks steps."""
    out, held, ids = [], [], {}
    for it in prog:
        x = dict(k=it[0], l='', m=0, r=[], w=[], h=[list(z) for z in held], a=[])
        if it[0] == 'A':
            if locks_only:
                continue
        else:
            x['l'], x['m'] = it[1], it[2]
            if it[0] == 'L':
                held.append((it[1], it[2]))
            else:
                held.remove((it[1], it[2]))
        out.append(x)
    out.append(dict(k='E', l='', m=0, r=[], w=[], h=[list(z) for z in held], a=[]))
    return out


def drop_locks(threads):
    """Leaves out locks that only one thread uses: they never make it wait."""
    use = {}
    for t, th in enumerate(threads):
        for x in th:
            if x['k'] in 'LU':
                use.setdefault(x['l'], set()).add(t)
    keep = {l for l, ts in use.items() if len(ts) > 1}
    names = {}
    for n, th in enumerate(threads):
        out, shift = [], {}
        for j, x in enumerate(th):
            shift[j + 1] = len(out) + 1
            if x['k'] in 'LU' and x['l'] not in keep or x['k'] == 'A' and not (x['r'] or x['w']):
                continue
            x['h'] = [z for z in x['h'] if z[0] in keep]
            out.append(x)
        shift[len(th) + 1] = len(out) + 1
        yield n, out, shift


def reduce_group(threads):
    red = list(drop_locks(threads))
    shifts = {n: s for n, _, s in red}
    names, classes = {}, {}
    out = []
    for n, th, _ in red:
        th2 = []
        for x in th:
            ren = lambda l: names.setdefault(l, 'l%d' % len(names))
            y = dict(x)
            if y['l']:
                y['l'] = ren(y['l'])
            y['h'] = [[ren(z[0]), z[1]] for z in y['h']]
            # the step named in a: after dropping, the last one kept at or before it
            y['a'] = [[t + 1, shifts[t][q + 1] - 1] for t, q in y['a']]
            th2.append(y)
        out.append(th2)
    return out


class Explorer:
    """Collects groups, has Locks explore the distinct ones."""

    def __init__(self, ctx):
        self.ctx, self.groups, self.origin = ctx, {}, []

    def add(self, group, origin):
        t = json.dumps(group, separators=(',', ':'))
        with self.ctx.lock:
            if t not in self.groups:
                self.groups[t] = len(self.origin)
                self.origin.append(origin)

    def run(self, invariant):
        """The groups in which the invariant fails: (index, text)."""
        ctx = self.ctx
        gs = list(self.groups)
        if not gs:
            return []
        parts, load = [[] for _ in range(JOBS)], [0] * JOBS
        for g in sorted(gs, key=len, reverse=True):
            j = load.index(min(load))
            parts[j].append(g)
            load[j] += len(g) ** 2
        found = []

        def go(part):
            fn = os.path.join(ctx.work, 'groups-%s.json' % hashlib.sha256(part[0].encode()).hexdigest()[:16])
            with open(fn, 'w') as f:
                f.write('[' + ','.join(part) + ']')
            txt = ctx.tlc('Locks', 'INIT Init\nNEXT Next\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n' % invariant, env={'GROUPS': fn}, heap='3g',
                          timeout=ctx.n(600, 3000))
            os.unlink(fn)
            m = re.search(r'(\d+) states generated, (\d+) distinct states', txt)
            if not m:
                raise CheckError('Locks: no result\n' + txt[-2000:])
            with ctx.lock:
                ctx.cov['model_states'] += int(m.group(2))
                ctx.cov['model_transitions'] += int(m.group(1))
                seen = set()
                for m in re.finditer(r'<<"(DEADLOCK|RACE)", (\d+).*', txt):
                    g = part[int(m.group(2)) - 1]
                    if g not in seen:
                        seen.add(g)
                        found.append((self.groups[g], m.group(0), g))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(go, [p for p in parts if p]))
        return sorted(found)


def trouble(ctx, block, ev, bad, what):
    s = strip(ev)
    j = next((n for n, l in enumerate(s) if l == bad), len(s) - 1)
    ctx.report('\n'.join(block) + '\n', bad, '', s, j, what=what)


# ---------------------------------------------------------------------- C18
def solo(ctx, ss, rng):
    """Records every program alone on every setup, also with system calls
    failing; reports locks held at the end or released wrongly."""
    blocks, info = [], []
    for si, s in enumerate(ss):
        p = programs(s, rng)
        f = faulty(p, rng)
        names = sorted(p) + (rng.sample(sorted(f), min(len(f), 40)) if ctx.quick() else sorted(f))
        p.update(f)
        for n in names:
            blocks.append(block(s, [p[n]], 'record 0', rng.getrandbits(64), rng))
            info.append((si, n, p[n]))
    progs = {}

    def each(j, ev):
        si, n, ls = info[j]
        pr, base, bad = recorded(ev)
        if bad:
            trouble(ctx, blocks[j], ev, bad, 'locks are not taken and released properly')
            return
        th = items(pr[0], base, True)
        own = {x['l'] for x in th if x['l'] and int(x['l'].split(':')[0]) > base}
        th = [x for x in th if x['l'] not in own or not x['l']]
        for x in th:
            x['h'] = [z for z in x['h'] if z[0] not in own]
        with ctx.lock:
            progs.setdefault((si, json.dumps(th)), (n, ls))
            ctx.cov['scripts'] += 1
            ctx.cov['events'] += len(ev)
    drive_all(ctx, blocks, each)
    return progs


def c18(ctx):
    rng = ctx.rng
    ss = setups(rng)
    progs = solo(ctx, ss, rng)
    X = Explorer(ctx)
    for si, s in enumerate(ss):
        ps = [(json.loads(t), n, ls) for (j, t), (n, ls) in sorted(progs.items()) if j == si]
        idx = [(a, b) for a in range(len(ps)) for b in range(a, len(ps))]
        three = [(a, b, c) for a, b in idx for c in range(b, len(ps))]
        if s.iters:
            continue        # the iterator of the setup holds locks that Locks does not know of
        cap = ctx.n(250, 20000)
        if len(three) > cap:
            three = rng.sample(three, cap)
        for g in idx + three:
            X.add(reduce_group([json.loads(json.dumps(ps[x][0])) for x in g]), (si, [ps[x] for x in g]))
    for gi, txt, g in X.run('NoDeadlock')[:5]:
        si, ps = X.origin[gi]
        b = block(ss[si], [p[2] for p in ps], 'run 0 -', 1, rng)
        ctx.report('\n'.join(b) + '\n', 'deadlock: ' + txt, 'locks: ' + g, what='interleaving of lock operations in which nobody can go on (spec/Locks.tla)')
    for t in X.groups:
        ctx.distinct.add(hashlib.sha256(t.encode()).digest())
    # real threads
    groups = choose(ctx, rng, ctx.n(220, 2500))
    fl = []
    for s, g in rng.sample(groups, len(groups) // 4):
        f = [rng.choice(FAULTS)]
        if s.iters:
            continue
        fl.append((s, [(g[0][0] + '!', f + g[0][1] + ['faultoff'])] + g[1:]))

    class Watch:
        def __init__(self):
            self.n = 0

        def add(self, b, ev):
            self.n += 1
            bad = next((l for l in ev if re.match(r'\{"op":"(badlock|deadlock|livelock|toolong|died)"', l)), None)
            if bad and len(ctx.violations) < 6:
                trouble(ctx, b, ev, bad, 'threads get stuck or misuse a lock (run with the driver of harness/conc.c)')
    W = Watch()
    n = schedule_runs(ctx, W, groups + fl, ctx.n(16, 60), rng)
    ctx.cov['scripts'] += n
    ctx.samples = ['\n'.join(block(groups[0][0], [x[1] for x in groups[0][1]], 'run 0 5 wp', 1, rng))]
    ctx.extra = {'programs_recorded': len(progs), 'groups_of_threads_explored': len(X.groups), 'scheduled_runs': W.n}


# ---------------------------------------------------------------------- C19
def segments(prog):
    """(step, accesses) of a recorded program; steps count from 1."""
    return [(j + 1, it[1]) for j, it in enumerate(prog) if it[0] == 'A']


def race_group(progs, base):
    """Threads of Locks with location classes for all memory that one thread
    writes and another accesses; None if there is none."""
    n = len(progs)
    byblock = {}
    for t in range(n):
        for step, acc in segments(progs[t]):
            for b, o, ln, w, tg in acc:
                byblock.setdefault(b, {}).setdefault((o, o + ln), []).append((t, step, w))
    sig = {}
    for b, iv in byblock.items():
        if len({x[0] for l in iv.values() for x in l}) < 2:
            continue
        cuts = sorted({p for k in iv for p in k})
        at = {}
        for (lo, hi), l in iv.items():
            j = cuts.index(lo)
            while cuts[j] < hi:
                at.setdefault(cuts[j], set()).update(l)
                j += 1
        for c, l in at.items():
            ts = {x[0] for x in l}
            if len(ts) > 1 and any(x[2] for x in l):
                sig.setdefault(frozenset(l), []).append((b, c))
    if not sig:
        return None
    rd, wr = {}, {}
    for n_, s in enumerate(sorted(sig, key=lambda s: sorted(s))):
        for t, step, w in s:
            (wr if w else rd).setdefault((t, step), set()).add(n_ + 1)
    # memory allocated by one thread and found by another
    owner = {}
    for t in range(n):
        for step, acc in segments(progs[t]):
            for b, o, ln, w, tg in acc:
                if b > base:
                    owner.setdefault(b, (t, step))
    writes = {}
    for t in range(n):
        for step, acc in segments(progs[t]):
            for b, o, ln, w, tg in acc:
                if w:
                    writes.setdefault((t, b), []).append((step, o, o + ln))
    need = {}      # (t, step) -> {(owner thread, its step)}
    for t in range(n):
        pub = {}   # block -> the owner's step after which this thread can know it
        for step, acc in segments(progs[t]):
            for again in (0, 1):
                for b, o, ln, w, tg in acc:
                    if not tg or tg not in owner or owner[tg][0] == t:
                        continue
                    u = owner[tg][0]
                    ws = [s for s, lo, hi in writes.get((u, b), []) if lo < o + ln and o < hi]
                    q = max(ws) if ws else owner[tg][1]
                    if b in owner and owner[b][0] == u:
                        q = max(q, pub.get(b, owner[b][1]))
                    pub[tg] = min(pub.get(tg, 10 ** 9), q)
            for b in {a[0] for a in acc}:
                if b in owner and owner[b][0] != t:
                    need.setdefault((t, step), set()).add((owner[b][0], max(owner[b][1], pub.get(b, owner[b][1]))))
    out = []
    for t in range(n):
        th = items(progs[t], base)
        for j, x in enumerate(th):
            if x['k'] == 'A':
                x['r'] = sorted(rd.get((t, j + 1), ()))
                x['w'] = sorted(wr.get((t, j + 1), ()))
                if x['r'] or x['w']:
                    x['a'] = sorted([u, q] for u, q in need.get((t, j + 1), ()))
        out.append(th)
    return out, sig


def c19(ctx):
    rng = ctx.rng
    ss = [s for _ in range(ctx.n(1, 6)) for s in setups(rng)]
    pairs = []
    for si, s in enumerate(ss):
        p = programs(s, rng)
        names = sorted(p)
        pairs += [(si, x, y, p) for x in names for y in names]
    blocks = [block(ss[si], [p[x], p[y]], 'record 0,1', rng.getrandbits(64), rng) for si, x, y, p in pairs]
    X = Explorer(ctx)
    stats = {'without_shared_writes': 0}

    def each(j, ev):
        pr, base, bad = recorded(ev)
        if bad:
            trouble(ctx, blocks[j], ev, bad, 'calls fail one after another')
            return
        g = race_group(pr[:2], base)
        with ctx.lock:
            ctx.cov['scripts'] += 1
            ctx.cov['events'] += len(ev)
            ctx.distinct.add(hashlib.sha256('\n'.join(blocks[j]).encode()).digest())
            if g is None:
                stats['without_shared_writes'] += 1
        if g is not None:
            X.add(reduce_group(g[0]), j)
    drive_all(ctx, blocks, each)
    for gi, txt, g in X.run('NoRace')[:5]:
        j = X.origin[gi]
        ctx.report('\n'.join(blocks[j]) + '\n', 'race: ' + txt, 'locks and shared memory: ' + g,
                   what='two threads can access the same memory at once, one of them to write (spec/Locks.tla)')
    ctx.samples = ['\n'.join(blocks[0])]
    ctx.extra = {'pairs_recorded': len(blocks), 'distinct_groups_explored': len(X.groups), **stats}
