"""C10-C15, C23: crashes, damage, failing and short system calls, file limits.

Histories are run once to learn which system calls every library call makes;
then each of them is made the last one of the process, made to fail, cut
short or interrupted, and the recorded traces are judged by spec/Trace.tla."""
from concurrent.futures import ThreadPoolExecutor
import json, os
import disk
from gen import *
from checks_map import pick, MAPACTS

MUTATING = {'open', 'write', 'pwrite', 'trunc', 'unlink', 'mkdir', 'rmdir', 'sync', 'rename'}


def is_op(line):
    return line.split()[0] not in ('new', 'proc', 'keys', 'limits', 'reg', 'counts', 'path', 'snap', 'show', 'fault', 'faultoff')


class Dry:
    """A history with the system calls each of its lines made."""

    def __init__(self, lines, calls, other):
        self.lines = lines
        self.calls = calls      # line index -> [(kind, length, name)]
        self.other = other      # events without calls


def dry(ctx, blocks, kind='asan'):
    """Runs each history once; `counts 1' goes in front."""
    text, spans, n = [], [], 0
    for b in blocks:
        ls = [b[0]] + ['counts 1'] + b[1:]
        spans.append(n)
        text += ls
        n += len(ls)
    ctx.dry.append((kind, '\n'.join(text) + '\n'))
    tf, rc, txt = ctx.drive('\n'.join(text) + '\n', kind)
    out = []
    evs = [json.loads(l) for l in open(tf)]
    os.unlink(tf)
    k = -1
    for e in evs:
        if e['op'] == 'new':
            k += 1
            out.append(Dry(blocks[k], {}, []))
            continue
        if 'c' in e:
            at = e['l'] - spans[k] - 1
            cs = []
            for c in e['c'].split(','):
                if c:
                    kd, ln, nm = c.split(':', 2)
                    cs.append((kd, int(ln), nm))
            out[k].calls[at] = out[k].calls.get(at, []) + cs
        else:
            out[k].other.append(e)
    return out


def roots_before(lines, at):
    """Registers that hold committed roots when line `at' runs."""
    return [int(l.split()[-1][1:]) for l in lines[:at] if l.startswith('root =')]


def newkey(rng):
    return '%064x' % rng.getrandbits(256)


def settle(rng, roots, what='gri', base=100, more=True, first=True):
    """Opens what is left, looks at everything, and goes on."""
    rs = roots if len(roots) <= 6 else rng.sample(roots, 6)
    w = what.replace('r', '')
    out = ['open', 'root =%d' % base, 'dump - ' + what] + ['dump @$%d %s' % (r, w) for r in rs]
    if more:
        out += ['ins %s r%d:%d' % (newkey(rng), rng.randrange(60), rng.randrange(999)), 'root =%d' % (base + 1),
                'dump @$%d %s' % (base, w), 'dump - ' + what, 'close', 'proc', 'open', 'dump - ' + what, 'dump @$%d %s' % (base, w)]
        out += ['dump @$%d %s' % (r, w) for r in rs[:2]]
        out += ['close', 'stat']
    return out


# ---------------------------------------------------------------- histories
def small_limits(rng):
    return [rng.choice([200, 256, 300, 380, 418, 500, 900]), rng.choice([2, 3, 5]), rng.choice([1, 60, 120, 400, 100000]),
            rng.choice([38 * 3, 38 * 10, 1 << 20])]


def base_history(rng, limits=None, n=3, destroy=False, maxval=60):
    """Creates a database, commits a few times with reopenings, in a way that
    uses every mutating system call."""
    ks = keyset(rng, 5)
    lim = limits
    b = ['new fault', 'keys ' + ' '.join(ks)]
    if lim:
        b.append('limits ' + ' '.join(map(str, lim)))
    b.append('open')
    reg = 0
    for c in range(n):
        x = rng.random()
        if x < 0.4:
            b.append('ins %s r%d:%d' % (rng.choice(ks), rng.randrange(maxval), rng.randrange(999)))
        elif x < 0.5 and reg:            # empty
            b += ['tx t0'] + ['txrem t0 ' + k for k in ks] + ['commit t0']
        elif x < 0.6 and reg:            # an older state again
            b += rng.choice([['tx t0 $%d' % rng.randrange(1, reg + 1)], ['revert $%d' % rng.randrange(1, reg + 1), 'tx t0']]) + ['commit t0']
        else:
            b.append('tx t0')
            for _ in range(rng.choice([1, 2, 3])):
                b.append('txins t0 %s r%d:%d' % (rng.choice(ks), rng.randrange(maxval), rng.randrange(999)))
            if rng.random() < 0.3:
                b.append('txrem t0 ' + rng.choice(ks))
            b.append('commit t0')
        reg += 1
        b.append('root =%d' % reg)
        if 'commit t0' in b[-2:]:
            b.append('txdel t0')
        if rng.random() < 0.3:
            b += ['close', 'open']
        if rng.random() < 0.2 and reg > 1:
            b += ['rem ' + rng.choice(ks)]
    b += ['close']
    if destroy:
        b += ['destroy', 'open', 'ins %s r5:1' % ks[0], 'close']
    else:
        b += ['proc', 'open', 'ins %s r%d:77' % (rng.choice(ks), rng.randrange(maxval)), 'root =%d' % (reg + 1), 'close']
    return b


def model_histories(ctx, num, depth=24, limits=True):
    """Random behaviours of spec/Gen.tla."""
    rng = ctx.rng
    out = []
    acts = ['open', 'close', 'tx', 'txat', 'txdel', 'txins', 'txrem', 'commit', 'ins', 'rem', 'revert', 'destroy', 'txinject']
    for t in walks(ctx, num, depth, 5, 3, 2, 1000, acts):
        ks = keyset(rng, 5)
        lim = small_limits(rng) if limits and rng.random() < 0.8 else None
        s = concrete(t, ks, values(rng, 3, [0, 1, 9, 20, 40, 60, 80]), 'walk', (), None, limits=lim)
        out.append(s.strip().split('\n'))
    return out


# ------------------------------------------------ behaviours of spec/Store
STORE_INV = 'INVARIANTS LastFound AllReadable Ordered FilesFit\nPROPERTY OldFilesStay\n'


def store_paths(ctx, tries, faults, sync, steps=None, walks=0, r=2, mx=5, sizes=(1, 2)):
    """Checks a bounded instance of spec/Store.tla and gives its behaviours:
    one for every transition, or random ones."""
    c = 'CONSTANTS R = %d Max = %d Sizes = {%s} Tries = %d Faults = %d Sync = %s MaxLevel = %d\n' % (
        r, mx, ', '.join(map(str, sizes)), tries, faults, 'TRUE' if sync else 'FALSE', steps or 100)
    c += 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n' + STORE_INV
    if walks:
        def walk(sd):
            return ctx.tlc('Store', c.replace('PROPERTY OldFilesStay\n', '') + 'INVARIANT EmitWalk\n', heap='1g',
                           args=['-simulate', 'num=%d' % (walks // 8 + 1), '-depth', str(steps), '-seed', str(sd)])
        with ThreadPoolExecutor(8) as ex:
            txt = ''.join(ex.map(walk, [ctx.seed * 8 + j for j in range(8)]))
    else:
        txt = ctx.model('Store', c + 'ACTION_CONSTRAINT Emit\n', workers=8)
    ps = parse(txt)
    ctx.notes.append('%d behaviours of Store' % len(ps))
    return ps


def store_script(rng, path, what='gri'):
    """A behaviour of spec/Store.tla as a script: cells become bytes."""
    lim = [rng.choice([156, 180, 190, 228, 266, 300, 342]), rng.choice([2, 3, 8]), 1 << 26, rng.choice([114, 380, 1 << 20])]
    ks = keyset(rng, 6)
    s = ['new store', 'keys ' + ' '.join(ks), 'limits ' + ' '.join(map(str, lim))]
    reg, tx = 0, False
    w = what.replace('r', '')
    small, big = rng.randrange(0, 12), rng.randrange(20, 70)

    def change(n):
        nonlocal tx
        out = []
        if not tx:
            out.append('tx t0')
            tx = True
        for _ in range(1 if n < 2 else 2):
            if n:
                out.append('txins t0 %s r%d:%d' % (rng.choice(ks), small if n == 1 else big, rng.randrange(9999)))
        return out

    def look(p):
        return ['dump - ' + what] * (rng.random() < p) + ['dump t0 ' + what] * (tx and rng.random() < p)
    for op in path:
        k = op[0]
        if k == 'open':
            s += ['open', 'root =80'] + look(0.5)
        elif k == 'opendies':
            s += ['fault unlink %d 0 killa' % op[1], 'open', 'proc', 'faultoff']
        elif k == 'close':
            s += ['txdel t0'] * tx + ['close'] + ['proc'] * (rng.random() < 0.5)
            tx = False
        elif k == 'kill':
            s += ['kill', 'proc']
            tx = False
        elif k == 'commit':
            reg += 1
            s += change(op[1]) + ['commit t0', 'root =%d' % reg] + look(0.3)
        elif k in ('fail', 'die'):
            n, at, j, ln = op[1:]
            if j == 0:
                f = 'err EIO' if k == 'fail' else 'kill'
            elif j == ln:
                f = 'killa'
            else:
                f = '%s %s %d' % ('parterr' if k == 'fail' else 'killp', 'ENOSPC', rng.choice([rng.randrange(1, 40), 38, 40, rng.randrange(1, 90)]))
            s += change(n) + ['fault write %d 0 %s' % (at, f), 'commit t0']
            if k == 'fail':
                s += ['faultoff'] + look(0.4)
            else:
                s += ['proc', 'faultoff']
                tx = False
        elif k == 'nosync':
            s += change(op[1]) + ['fault sync 1 0 err EIO', 'commit t0', 'faultoff'] + look(0.4)
        elif k == 'power':
            s += ['proc', 'power %d' % rng.choice([0, 1, 2, 3 + rng.randrange(1000), 3 + rng.randrange(1000)]), 'proc']
    regs = list(range(1, reg + 1))
    up = any(op[0] == 'open' for op in path) and [op[0] for op in path if op[0] in ('open', 'close', 'kill', 'die')][-1] == 'open'
    if up:
        s += ['txdel t0'] * tx + ['dump - ' + what] + ['dump @$%d %s' % (r, w) for r in regs[-3:]] + ['close', 'stat']
    return s + ['proc'] + settle(rng, regs, what, more=rng.random() < 0.6)


def store_scripts(ctx, num, want, sync=False, walks=None):
    """Scripts from behaviours in which some step is one of `want'."""
    ps = [p for p in store_paths(ctx, 3, 2, sync) if any(o[0] in want for o in p)]
    ps = pick(ctx.rng, ps, num * 2 // 3)
    ws = [p for p in store_paths(ctx, 12, 5, sync, 30, num * 2, sizes=(1, 2, 3), mx=6) if any(o[0] in want for o in p)]
    return [store_script(ctx.rng, p) for p in ps + pick(ctx.rng, ws, num // 3)]


# --------------------------------------------------------------------- C10
def kill_points(rng, calls, full):
    """Every way of dying in these calls: (fault line)."""
    seen = {}
    out = []
    for kd, ln, nm in calls:
        seen[kd] = seen.get(kd, 0) + 1
        n = seen[kd]
        if kd not in MUTATING:
            continue
        if kd == 'open' and nm in ('urandom', 'random'):
            continue
        out.append('fault %s %d 0 kill' % (kd, n))
        out.append('fault %s %d 0 killa' % (kd, n))
        if kd in ('write', 'pwrite') and ln > 1:
            cuts = set(range(1, ln)) if full else {1, ln // 2, ln - 1, rng.randrange(1, ln)} | {ln - d for d in (19, 37, 38, 39) if d < ln}
            for c in sorted(cuts):
                out.append('fault %s %d 0 killp EIO %d' % (kd, n, c))
    return out


def kill_scripts(ctx, d, full, per_line=None):
    rng = ctx.rng
    out = []
    for at in sorted(d.calls):
        ks = kill_points(rng, d.calls[at], full)
        if per_line and len(ks) > per_line:
            ks = rng.sample(ks, per_line)
        for f in ks:
            roots = [r for r in roots_before(d.lines, at)]
            if any(l == 'destroy' for l in d.lines[:at + 1]):
                roots = []
            s = d.lines[:at] + [f, d.lines[at], 'proc']
            if d.lines[at] == 'destroy':
                # it can be repeated; only then can the path be used again
                s += ['destroy', 'proc']
                s += ['destroy', 'stat gone'] if rng.random() < 0.3 else ['stat']
                s += settle(rng, [])
            else:
                r = rng.random()
                if r < 0.45:       # die again while recovering, or in the next commit
                    m = rng.choice(['kill', 'killa', 'killp'])
                    f2 = 'fault %s %d 0 %s EIO %d' % (rng.choice(['trunc', 'unlink', 'open', 'write']), rng.randrange(1, 5), m, rng.randrange(1, 30))
                    s += [f2, 'open', 'proc']
                    if r < 0.2:
                        s += ['open', f2, 'ins %s r30:3' % newkey(rng), 'proc']
                s += settle(rng, roots)
            out.append(s)
    return out


def c10(ctx):
    rng = ctx.rng
    hs = []
    for j in range(ctx.n(14, 60)):
        lim = [None, [300, 2, 1, 114], [256, 2, 100000, 38 * 10], [420, 3, 90, 1 << 20], small_limits(rng)][j % 5]
        hs.append(base_history(rng, lim, ctx.n(2, 3), destroy=j % 4 == 3))
    hs += model_histories(ctx, ctx.n(40, 300))
    ds = dry(ctx, hs)
    out = []
    for j, d in enumerate(ds):
        out += kill_scripts(ctx, d, not ctx.quick() and j < 20, ctx.n(9, 40) if j >= ctx.n(0, 20) else None)
    ctx.notes.append('%d histories, %d ways to die' % (len(ds), len(out)))
    out = pick(rng, out, ctx.n(1400, 60000))
    ctx.replay_scripts(out + store_scripts(ctx, ctx.n(250, 20000), ('die', 'kill', 'opendies')))


# --------------------------------------------------------------------- C11
def c11(ctx):
    rng = ctx.rng
    out = []
    hs = []
    for j in range(ctx.n(8, 40)):
        lim = [None, [300, 3, 100000, 114], [420, 2, 100, 38 * 5], [1000, 3, 100000, 76]][j % 4]
        h = base_history(rng, lim, 4, maxval=30)
        if j % 4 == 3:                  # the newest one is empty
            h += ['open', 'tx t0'] + ['txrem t0 ' + k for k in h[1].split()[1:]] + ['commit t0', 'txdel t0', 'root =60', 'close']
        hs.append(h + ['show'])
    ds = dry(ctx, hs)
    # the same databases with other secret keys
    other = []
    env, ctx.env = ctx.env, dict(ctx.env, VERIF_SEED=str(ctx.seed + 77777777))
    od = dry(ctx, hs)
    ctx.env = env
    for d in od:
        bs = d.other[-1]['bytes']
        other.append(bs[-1])
    for j, d in enumerate(ds):
        files = d.other[-1]['bytes']
        size = len(files[-1]) // 2
        roots = roots_before(d.lines, len(d.lines))
        base = d.lines[:-1] + ['proc']       # without the show
        lens = list(range(0, size + 1))
        if ctx.quick() or size > 2000:
            lens = pick(rng, lens, ctx.n(45, 400))

        def tail(more=None):
            s = ['proc', 'open', 'root =90', 'dump - rgi']
            s += ['dump @$90 gi']
            s += ['ins %s r%d:5' % (newkey(rng), rng.randrange(50)), 'root =91', 'dump @$90 gi', 'close', 'proc', 'open',
                  'dump - rgi', 'dump @$90 gi', 'dump @$91 gi', 'close', 'stat']
            return s
        for n in lens:                       # cut at every byte
            out.append(base + ['cut 0 %d' % n] + tail())
        for _ in range(ctx.n(40, 400)):      # overwrite with garbage
            # everything from some byte to the end (and perhaps beyond)
            off = rng.randrange(1, size + 1)
            how = rng.randrange(4)
            if how == 3 and rng.random() < 0.7:
                off = min(size, 38 * rng.randrange(0, size // 38 + 1) + size % 38) or 1
            more = rng.choice([0, 0, 0, 1, 37, 38, 39, 80])
            if how == 0:
                g = 'r%d:%d' % (off + more, rng.randrange(10 ** 6))
            elif how == 1:
                g = '00' * (off + more)
            elif how == 2:                   # records of another database
                o = rng.choice(other)[-76 * rng.randrange(1, 5):] or '00'
                n = max(0, off + more - len(o) // 2)
                g = '%0*x' % (2 * n, rng.getrandbits(8 * n)) if n else ''
                g += o
            else:                            # things that look like records
                g = ''
                while len(g) < 2 * (off + more):
                    g += '6c6b726d' + '%068x' % rng.getrandbits(270) if rng.random() < 0.7 else '6c6b726d' + '00' * 34
            out.append(base + ['garble 0 %d %s' % (off, g)] + tail())
        for _ in range(ctx.n(14, 150)):      # extend
            how = rng.randrange(5)
            if how == 0:
                out.append(base + ['extend 0 r%d:%d' % (rng.choice([1, 37, 38, 39, 76, 200, 1000]), rng.randrange(10 ** 6))] + tail())
            elif how == 1:
                out.append(base + ['extend 0 ' + '00' * rng.randrange(1, 300)] + tail())
            elif how == 2:
                out.append(base + ['forge %d %d' % (rng.choice([1, 2, 40]), rng.randrange(304))] + tail())
            elif how == 3:
                out.append(base + ['extend 0 ' + '00' * ((38 - size % 38) % 38) + rng.choice(other)[-76:]] + tail())
            else:
                out.append(base + ['extend 0 ' + ('00' * ((38 - size % 38) % 38)) + '6c6b726d' + '%068x' % rng.getrandbits(270)] + tail())
        if j < ctx.n(1, 4):                  # a record with any bit wrong is no record
            for bit in range(0, 304, ctx.n(4, 1)):
                out.append(base + ['forge 1 %d' % bit] + tail())
        if rng.random() < 0.5 and len(files) > 1:   # damage twice
            out.append(base + ['cut 0 %d' % rng.randrange(size + 1)] + tail()[:-2] + ['close', 'cut 0 %d' % rng.randrange(40)] + tail())
    ctx.replay_scripts(pick(rng, out, ctx.n(1100, 60000)))


# ---------------------------------------------------------------- C12 - C14
def fault_history(rng, limits=None):
    """Every kind of call, in a fresh process each time files must be opened."""
    ks = keyset(rng, 6)
    b = ['new fault', 'keys ' + ' '.join(ks[:5])]
    if limits:
        b.append('limits ' + ' '.join(map(str, limits)))
    V = lambda: 'r%d:%d' % (rng.randrange(60), rng.randrange(999))
    b += ['open', 'ins %s %s' % (ks[0], V()), 'root =1', 'tx t0', 'txins t0 %s %s' % (ks[1], V()), 'txins t0 %s %s' % (ks[2], V()),
          'commit t0', 'root =2', 'txins t0 %s %s' % (ks[3], V()), 'commit t0', 'root =3', 'txdel t0', 'close', 'proc', 'open',
          'get %s $1' % ks[0], 'get ' + ks[2], 'has ' + ks[4], 'prove %s =0' % ks[1], 'has %s $2' % ks[3], 'tx t0', 'txget t0 ' + ks[1],
          'txrem t0 ' + ks[0], 'txins t0 %s %s' % (ks[4], V()), 'commit t0', 'root =4', 'txrem t0 ' + ks[4], 'txclear t0',
          'tx t1 $2', 'iter i0', 'next i0', 'next i0', 'idel i0', 'txiter i1 t1', 'next i1', 'idel i1', 'rem ' + ks[1], 'root =5',
          'txinject t1 $1', 'txprove t1 ' + ks[0], 'revert $3', 'dump - r', 'txdel t1', 'txdel t0', 'ins %s %s' % (ks[5], V()), 'root =6',
          'close', 'proc', 'open', 'revert $1', 'tx t0', 'txrem t0 ' + ks[0], 'commit t0', 'root =7', 'txdel t0', 'close']
    return b


def crashed(ctx, n):
    """Histories in which the process dies at some system call and the
    database is used again; faults belong behind that."""
    rng = ctx.rng
    hs = [base_history(rng, [rng.choice([200, 256, 300, 420]), rng.choice([2, 3, 32]), rng.choice([1, 60, 200, 100000]), rng.choice([114, 380, 1 << 20])],
                       2) for _ in range(max(2, n // 6))]
    out = []
    for d in dry(ctx, hs):
        at = [j for j in d.calls if d.calls[j] and d.lines[j].split()[0] in ('commit', 'ins', 'rem', 'open')]
        for j in rng.sample(at, min(len(at), 8)):
            ps = kill_points(rng, d.calls[j], False)
            ps = [p for p in ps if 'write' in p] or ps
            if ps:
                ks = d.lines[1].split()[1:]
                s = d.lines[:j] + [rng.choice(ps), d.lines[j], 'proc', 'open', 'tx t0']
                s += ['txins t0 %s r%d:%d' % (rng.choice(ks), rng.randrange(60), rng.randrange(999)) for _ in range(rng.randrange(1, 7))]
                s += ['commit t0', 'root =50', 'txdel t0', 'ins %s r20:1' % newkey(rng), 'root =51', 'close']
                out.append(s)
    return pick(rng, out, n)


def fault_scripts(ctx, d, want, faults, retry=True, lines=None, what='rgi'):
    """For each line, each of its system calls of a wanted kind, each fault."""
    rng = ctx.rng
    out = []
    start = max([j + 2 for j, l in enumerate(d.lines) if l.startswith('fault ')], default=0)
    for at in sorted(d.calls):
        if at < start or lines and not lines(d.lines[at]):
            continue
        seen = {}
        for kd, ln, nm in d.calls[at]:
            seen[kd] = seen.get(kd, 0) + 1
            if kd not in want:
                continue
            for f in faults(rng, kd, seen[kd], ln, nm):
                roots = roots_before(d.lines, at)
                if any(l == 'destroy' for l in d.lines[:at + 1]):
                    roots = []
                live = set()
                opened = False
                for l in d.lines[:at + 1]:
                    w = l.split()
                    if w[0] == 'tx':
                        live.add(w[1])
                    elif w[0] == 'txdel':
                        live.discard(w[1])
                    elif w[0] in ('open', 'close'):
                        opened = w[0] == 'open'
                iters = [l.split()[1] for l in d.lines[:at + 1] if l.split()[0] in ('iter', 'txiter')]
                s = d.lines[:at] + [f, d.lines[at], 'faultoff']
                w = d.lines[at].split()
                look = []
                if w[0] == 'commit' and w[1] in live and rng.random() < 0.6:    # its root is no commit's if it fails
                    s = d.lines[:at] + ['txroot %s =70' % w[1]] + s[at:]
                    look = ['dump @$70 gi']
                if opened and d.lines[at] != 'close' and rng.random() < 0.5:
                    look += ['dump @$%d gi' % r for r in rng.sample(roots, min(len(roots), 3))]
                if d.lines[at].split()[0] in ('iter', 'txiter', 'next'):
                    s += ['next ' + i for i in iters] * 2
                s += ['idel ' + i for i in iters] + look
                s += ['dump - ' + what] + ['dump %s %s' % (t, what) for t in sorted(live)]
                if w[0] == 'commit' and look and rng.random() < 0.5:
                    s += ['txins %s %s r9:1' % (w[1], newkey(rng))]
                if retry and d.lines[at].split()[0] not in ('iter', 'txiter', 'next', 'idel', 'tx', 'close', 'dump'):
                    s += [d.lines[at], 'root =80', 'dump - ' + what] + ['dump %s %s' % (t, what) for t in sorted(live)]
                if rng.random() < 0.4:
                    s += ['ins %s r%d:9' % (newkey(rng), rng.choice([9, 60])) for _ in range(rng.choice([1, 1, 4]))] + ['dump - ' + what]
                s += ['txdel ' + t for t in sorted(live)]
                s += ['close', 'stat'] + (['proc'] if rng.random() < 0.7 else []) + settle(rng, roots + [70] * ('dump @$70 gi' in look), what)
                out.append(s)
    return out


ERRS = {
    'open': ['EIO', 'EMFILE', 'ENFILE', 'EACCES', 'ENOENT', 'ENOMEM', 'EINVAL'],
    'write': ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG', 'EROFS', 'EBADF'],
    'mmap': ['ENOMEM', 'EINVAL', 'EACCES'],
    'fcntl': ['ENOLCK', 'EACCES', 'EIO'],
}


def write_faults(rng, kd, n, ln, nm):
    e = rng.choice(ERRS.get(kd, ['EIO']))
    if kd == 'write':
        out = ['fault write %d 0 err %s' % (n, e)]
        if ln > 1:
            cuts = {1, ln - 1, ln // 2, rng.randrange(1, ln)}
            out += ['fault write %d 0 parterr %s %d' % (n, e, c) for c in cuts]
            out += ['fault write %d 0 parterr ENOSPC 0' % n]
        out.append(rng.choice(['fault write %d 1 err ENOSPC', 'fault write %d 1 zero']) % n)
        return out
    return ['fault %s %d 0 err %s' % (kd, n, e)]


def c12(ctx):
    rng = ctx.rng
    hs = []
    for j in range(ctx.n(12, 80)):
        lim = [None, [300, 2, 1, 114], [256, 2, 100000, 1 << 20], [420, 3, 90, 1 << 20], small_limits(rng)][j % 5]
        hs.append(fault_history(rng, lim) if j % 2 else base_history(rng, lim, 4))
    hs += model_histories(ctx, ctx.n(30, 200)) + crashed(ctx, ctx.n(30, 300))
    ds = dry(ctx, hs)
    out = []
    commits = lambda l: l.split()[0] in ('commit', 'ins', 'rem')
    want = {'write', 'open', 'sync', 'trunc', 'mmap', 'munmap', 'close', 'fstat', 'pread', 'read', 'stat', 'lseek', 'pwrite'}
    for d in ds:
        out += fault_scripts(ctx, d, want, write_faults, lines=commits)
    ctx.notes.append('%d faults in commits' % len(out))
    # failures that go on for a while, over several commits
    for j in range(ctx.n(150, 3000)):
        ks = keyset(rng, 6)
        lim = small_limits(rng)
        s = ['new long', 'keys ' + ' '.join(ks), 'limits ' + ' '.join(map(str, lim)), 'open', 'ins %s r20:1' % ks[0], 'root =1', 'tx t0', 'tx t1']
        for x in range(rng.randrange(1, 4)):
            s.append(rng.choice(['fault write %d 1 err ENOSPC', 'fault write %d 0 parterr ENOSPC 17', 'fault open %d 1 err EMFILE',
                                 'fault write,open %d 2 err EIO', 'fault write %d 0 parterr EIO 9\nfault trunc 1 0 err EIO',
                                 'fault write %d 3 parterr ENOSPC 30\nfault trunc 1 2 err EIO', 'fault write %d 0 zero', 'fault mmap,munmap %d 0 err ENOMEM']) % rng.randrange(1, 4))
            s[-1:] = s[-1].split('\n')
            for y in range(rng.randrange(1, 4)):
                t = rng.choice(['t0', 't1'])
                s += ['txins %s %s r%d:%d' % (t, rng.choice(ks), rng.randrange(60), rng.randrange(999)), 'commit ' + t]
                if rng.random() < 0.3:
                    s += ['ins %s r%d:%d' % (rng.choice(ks), rng.randrange(60), rng.randrange(99))]
                if rng.random() < 0.2:
                    s += ['txclear ' + t]
            s.append('faultoff')
            s += ['dump - rgi', 'dump t0 rgi', 'dump t1 rgi']
            if rng.random() < 0.6:
                s += ['commit ' + rng.choice(['t0', 't1']), 'root =%d' % (x + 2), 'dump - rgi']
        s += ['txdel t0', 'txdel t1']
        if rng.random() < 0.5:
            s += ['ins %s r3:3' % ks[1], 'root =70', 'dump - rgi', 'close', 'stat', 'proc'] + settle(rng, [1, 70])
        elif rng.random() < 0.5:
            s += ['close', 'stat', 'proc'] + settle(rng, [1])
        else:
            s += ['kill', 'proc'] + settle(rng, [1])
        out.append(s)
    out = pick(rng, out, ctx.n(1300, 60000))
    ctx.replay_scripts(out + store_scripts(ctx, ctx.n(250, 20000), ('fail',)))
    # a build that syncs every commit: the syncs fail as well
    ys = []
    for d in dry(ctx, [h for h in hs if h[0] == 'new fault'][:ctx.n(8, 60)], 'fsync'):
        ys += fault_scripts(ctx, d, {'sync', 'write', 'open'}, write_faults, lines=commits)
    ys = pick(rng, ys, ctx.n(250, 10000))
    ctx.replay_scripts(ys + [x for x in store_scripts(ctx, ctx.n(100, 8000), ('nosync',), True) if not any(l.startswith('power') for l in x)], 'fsync')


def read_faults(rng, kd, n, ln, nm):
    e = rng.choice(ERRS.get(kd, ['EIO']))
    out = ['fault %s %d 0 err %s' % (kd, n, e)]
    if rng.random() < 0.3:
        out.append('fault %s %d 1 err %s' % (kd, n, e))
    return out


def c13(ctx):
    rng = ctx.rng
    hs = []
    for j in range(ctx.n(8, 60)):
        lim = [None, [300, 2, 1, 114], [256, 2, 100000, 1 << 20], [420, 32, 90, 1 << 20], small_limits(rng)][j % 5]
        hs.append(fault_history(rng, lim))
    hs += model_histories(ctx, ctx.n(25, 200))
    cs = crashed(ctx, ctx.n(50, 400))
    ds = dry(ctx, hs)
    out, first, olds = [], [], []
    want = {'open', 'read', 'pread', 'stat', 'fstat', 'mmap', 'munmap', 'opendir', 'readdir', 'fcntl', 'mkdir', 'unlink', 'trunc',
            'close', 'lseek', 'getcwd', 'sync', 'write', 'rmdir'}
    for d in ds:
        out += fault_scripts(ctx, d, want, read_faults)
    for d in dry(ctx, cs):          # above all while recovering
        first += fault_scripts(ctx, d, want, read_faults, lines=lambda l: l == 'open')
        out += fault_scripts(ctx, d, want, read_faults, lines=lambda l: l != 'open')
    for j in range(ctx.n(150, 3000)):       # while looking for an old commit
        ks = keyset(rng, 5)
        b = ['new old', 'keys ' + ' '.join(ks), 'limits %d %d 100000 380' % (rng.choice([300, 500, 100000]), rng.choice([1, 2, 32])), 'open']
        n = rng.randrange(2, 7)
        for c in range(n):
            b += ['ins %s r%d:%d' % (rng.choice(ks), rng.randrange(60), c), 'root =%d' % (c + 1)]
        b += ['close', 'proc', 'open']
        for _ in range(rng.randrange(1, 4)):
            r = '$%d' % rng.randrange(1, n + 1)
            b += ['fault open,pread,mmap,fstat,read %d 0 err EIO' % rng.randrange(1, 2 * n + 3),
                  rng.choice(['get %s %s' % (rng.choice(ks), r), 'tx t1 ' + r, 'revert ' + r, 'has %s %s' % (ks[0], r), 'get %s %s' % (ks[0], BAD)]), 'faultoff']
            if rng.random() < 0.3:
                b += ['ins %s r9:%d' % (newkey(rng), rng.randrange(999))]
        b += ['dump @$%d gi' % r for r in rng.sample(range(1, n + 1), n)] + ['txdel t1', 'close', 'stat'] + settle(rng, list(range(1, n + 1)))
        olds.append(b)
    ctx.notes.append('%d faults' % (len(out) + len(first)))
    ctx.replay_scripts(pick(rng, first, ctx.n(700, 20000)) + olds + pick(rng, out, ctx.n(1400, 60000)))


def short_faults(rng, kd, n, ln, nm):
    out = []
    if kd in ('read', 'write', 'pread', 'pwrite'):
        if ln > 1:
            out += ['fault %s %d 0 short EIO %d' % (kd, n, c) for c in {1, ln - 1, rng.randrange(1, ln)}]
        out += ['fault %s %d 0 err EINTR' % (kd, n), 'fault %s %d 0 err EAGAIN' % (kd, n)]
    elif kd == 'open':
        out.append('fault open %d 0 err EINTR' % n)
    return out


def c14(ctx):
    ctx.nontrivial = r'"s":[1-9]'
    rng = ctx.rng
    hs = []
    for j in range(ctx.n(6, 40)):
        lim = [None, [300, 2, 1, 114], [256, 2, 100000, 1 << 20], [420, 32, 90, 1 << 20], small_limits(rng)][j % 5]
        hs.append(fault_history(rng, lim) if j % 2 == 0 else base_history(rng, lim, 3))
    ds = dry(ctx, hs)
    out = []
    for d in ds:
        out += fault_scripts(ctx, d, {'open', 'read', 'write', 'pread', 'pwrite'}, short_faults, retry=False)
    out = pick(rng, out, ctx.n(500, 20000))
    # all the time
    for h in hs + model_histories(ctx, ctx.n(60, 800)):
        k = [j for j, l in enumerate(h) if l == 'open'][0]
        for f in [['fault read,write,pread,pwrite 1 1 short EIO 1'], ['fault read,write,pread,pwrite 1 1 short EIO %d' % rng.randrange(2, 40)],
                  ['fault read,write,pread,pwrite,open 1 2 err EINTR'], ['fault read,write,pread,pwrite 1 2 err EAGAIN'],
                  ['fault read,write,pread,pwrite,open 1 3 err EINTR', 'fault read,write,pread,pwrite 2 2 short EIO %d' % rng.randrange(1, 50)]]:
            s = h[:k] + ['proc'] + f
            for l in h[k:]:
                s.append(l)
                if l == 'proc':
                    s += f
                elif l.split()[0] in ('commit', 'open', 'ins') and rng.random() < 0.3:
                    s.append('dump - rgi')
            out.append(s + ['proc'] + settle(rng, [] if 'destroy' in h else roots_before(h, len(h))))
    ctx.replay_scripts(out)


# --------------------------------------------------------------------- C15
def c15(ctx):
    ctx.nontrivial = r'"pos":\[[2-9]'      # more than one file
    rng = ctx.rng
    out = []

    def history(lim, n, vmax):
        ks = keyset(rng, 6)
        b = ['new files', 'keys ' + ' '.join(ks), 'limits ' + ' '.join(map(str, lim)), 'open', 'tx t0', 'tx t3']
        reg = 0
        for c in range(n):
            for _ in range(rng.choice([1, 1, 2, 4])):
                b.append('txins t0 %s r%d:%d' % (rng.choice(ks), rng.randrange(vmax + 1), rng.randrange(999)))
            if rng.random() < 0.25:
                b.append('txrem t0 ' + rng.choice(ks))
            reg += 1
            b += ['snap', 'commit t0', 'root =%d' % reg, 'grown', 'stat commit', 'dump - rg']
            if rng.random() < 0.4:
                b += ['dump @$%d gi' % rng.randrange(1, reg + 1), 'dump t0 gi']
            if rng.random() < 0.15:
                b += ['txdel t0', 'txdel t3', 'close', 'proc', 'open', 'stat commit', 'tx t0', 'tx t3', 'dump t0 rgi']
            if rng.random() < 0.1:
                b += ['revert $%d' % rng.randrange(1, reg + 1), 'txclear t0']
        b += ['dump t3 r', 'txdel t0', 'txdel t3', 'dump - rgip', 'snap', 'close', 'proc', 'open', 'grown', 'dump - rgip']
        b += ['dump @$%d gi' % r for r in range(reg, 0, -1)]
        b += ['ins %s r3:3' % ks[0], 'dump - rgi', 'close', 'stat']
        return b
    lo = list(range(114, 460)) + list(range(460, 1300, 17))
    for mfs in (pick(rng, lo, 230) if ctx.quick() else lo * 8):
        vmax = rng.choice([0, 20, 60, min(mfs - 1, 113), mfs - 1 if mfs < 1024 else 1023])
        out.append(history([mfs, rng.choice([2, 2, 3, 4]), rng.choice([1, 50, 200, 100000]), rng.choice([114, 380, 1 << 20])],
                           rng.choice([4, 8, 14]), vmax))
    for mfs in pick(rng, [2048, 3000, 4096, 5000, 6111, 8192], ctx.n(3, 6)):
        out.append(history([mfs, 2, rng.choice([1, 100000]), 1 << 20], ctx.n(20, 60), 1023))
    acts = ['open', 'close', 'kill', 'tx', 'txat', 'txdel', 'txinject', 'txins', 'txrem', 'commit', 'ins', 'rem', 'revert', 'bad']
    for t in walks(ctx, ctx.n(100, 2000), 50, 6, 4, 3, 1000, acts):
        ks = keyset(rng, 8)
        o = look('rgi', hist=True)
        f = lambda live, nlog, isopen, op: o(live, nlog, isopen, op) if rng.random() < 0.12 else []
        out.append(concrete(t, ks[:6], values(rng, 4, [0, 1, 20, 60, 100, 113]), 'walk', ks[6:], f, True,
                            limits=[rng.randrange(114, 600), rng.choice([2, 3]), rng.choice([1, 80, 100000]), rng.choice([114, 1 << 20])],
                            proc_on_close=rng.random() < 0.5))
    # far into the files, and far into a file
    jobs = []
    for f0 in [8, 98, 127, 128, 254, 255, 256, 999, rng.choice([4095, 9999, 16383, 16384, 32000])]:
        for _ in range(ctx.n(1, 6)):
            jobs.append(disk.job(rng, rng.randrange(2, 6), rng.randrange(2, 8), 100, 300 if f0 < 4000 else 8192, f0))
    for base in [65535, (1 << 24) - 60, (1 << 30) - 100, 0x7fffefff]:
        for _ in range(ctx.n(1, 6)):
            jobs.append(disk.job(rng, rng.randrange(2, 6), rng.randrange(2, 8), 1023, 0x7ffff000, 0, base))
    out += [[l for l in disk.load(rng, j, i) if l != 'image'] for j, i in zip(jobs, disk.images(ctx, jobs))]
    ctx.replay_scripts(out)


# --------------------------------------------------------------------- C23
def c23(ctx):
    rng = ctx.rng

    def scripts(sync):
        out = []
        for j in range(ctx.n(170, 5000)):
            lim = [None, small_limits(rng), [300, 2, 1, 114], [260, 2, 100000, 1 << 20]][j % 4]
            b = base_history(rng, lim, rng.choice([1, 2, 4, 6]))
            # power fails after some line
            opens = [k for k, l in enumerate(b) if l.split()[0] in ('ins', 'commit', 'close', 'root', 'open')]
            at = rng.choice(opens)
            pw = 'power %d' % rng.choice([0, 0, 1, 2, 3 + rng.randrange(1000), 3 + rng.randrange(1000)])
            tail = ['proc', pw, 'proc', 'open', 'root =90', 'dump - rgi', 'dump @$90 gi',
                    'ins %s r%d:5' % (newkey(rng), rng.randrange(50)), 'root =91', 'dump @$90 gi', 'close', 'proc']
            if rng.random() < 0.5:
                tail += ['power %d' % rng.randrange(3, 999), 'proc']
            tail += ['open', 'root =92', 'dump - rgi', 'close', 'stat']
            out.append(b[:at + 1] + ['kill'] + tail)
        return out

    def kills(d):
        """Power fails inside a call."""
        out = []
        for at in sorted(d.calls):
            for f in pick(rng, kill_points(rng, d.calls[at], False), ctx.n(3, 30)):
                pw = 'power %d' % rng.choice([0, 1, 2, 3 + rng.randrange(1000)])
                out.append(d.lines[:at] + [f, d.lines[at], 'proc', pw, 'proc', 'open', 'root =90', 'dump - rgi', 'dump @$90 gi',
                                           'ins %s r20:5' % newkey(rng), 'close', 'proc', 'open', 'dump - rgi', 'close', 'stat'])
        return out
    hs = [base_history(rng, small_limits(rng) if j % 3 else None, 3) for j in range(ctx.n(12, 100))]
    plain = scripts(False) + [s for d in dry(ctx, hs) for s in kills(d)]
    plain = pick(rng, plain, ctx.n(600, 30000))
    ctx.replay_scripts(plain + store_scripts(ctx, ctx.n(200, 15000), ('power',)))
    fs = scripts(True) + [s for d in dry(ctx, hs, 'fsync') for s in kills(d)]

    def rewrite(tf):
        s = open(tf).read().replace('{"op":"cut"', '{"op":"synccut"')
        open(tf, 'w').write(s)
    fs = pick(rng, fs, ctx.n(600, 30000))
    ctx.replay_scripts(fs + store_scripts(ctx, ctx.n(200, 15000), ('power',), True), kind='fsync', rewrite=rewrite)


# --------------------------------------------------------------------- C28
def c28(ctx):
    """Parts of older files, or the key, are missing for a while."""
    ctx.nontrivial = r'"op":"hurt"'
    rng = ctx.rng
    out = []

    def history(j):
        ks = keyset(rng, 6)
        lim = [rng.choice([150, 200, 256, 300, 420, 600]), rng.choice([2, 3, 32]), rng.choice([1, 60, 100000]), rng.choice([114, 380, 1 << 20])]
        b = ['new missing', 'keys ' + ' '.join(ks), 'limits ' + ' '.join(map(str, lim)), 'open', 'tx t0']
        V = lambda: 'r%d:%d' % (rng.randrange(110), rng.randrange(999))
        reg = 0
        for c in range(rng.randrange(2, 7)):
            for _ in range(rng.choice([1, 1, 2, 4])):
                b.append('txins t0 %s %s' % (rng.choice(ks[:5]), V()))
            if rng.random() < 0.2:
                b.append('txrem t0 ' + rng.choice(ks))
            reg += 1
            b += ['commit t0', 'root =%d' % reg]
        b += ['txdel t0', 'close', 'proc']
        return ks, V, b, list(range(1, reg + 1))

    def damage():
        r = rng.random()
        if r < 0.08:
            return ['hurt 0 %d' % rng.choice([-1, 0, 500, 999])]
        if r < 0.3:
            return ['hurt %d -1' % rng.randrange(1, 50)]
        if r < 0.5:
            return ['hurt %d %d' % (x, rng.choice([0, 300, 999])) for x in range(1, 5)]
        return ['hurt %d %d' % (rng.randrange(1, 50), rng.choice([0, 999, rng.randrange(1000), rng.randrange(900, 1000)]))
                for _ in range(rng.choice([1, 1, 2]))]

    def looks(regs, n):
        o = []
        for r in rng.sample(regs, min(len(regs), n)):
            o.append('dump @$%d %s' % (r, rng.choice(['gi', 'ghi', 'gp'])))
        return o
    for j in range(ctx.n(700, 20000)):
        ks, V, b, regs = history(j)
        for turn in range(rng.choice([1, 1, 2])):
            b += damage() + ['proc', 'open']
            if rng.random() < 0.7:
                b += ['dump - rghi']
            b += looks(regs, 2)
            for _ in range(rng.randrange(6)):
                k, r = rng.choice(ks), '$%d' % rng.choice(regs)
                b += rng.choice([['get ' + k], ['has %s %s' % (k, r)], ['prove %s %s' % (k, r)], ['ins %s %s' % (k, V())], ['rem ' + k],
                                 ['revert ' + r], ['get %s %s' % (k, BAD)], ['tx t1 ' + r, 'txins t1 %s %s' % (k, V()), 'txrem t1 ' + rng.choice(ks),
                                  'dump t1 rgi', 'txroot t1', 'commit t1', 'txdel t1'], ['tx t1', 'txrem t1 ' + k, 'txinject t1 ' + r, 'txprove t1 ' + k,
                                  'txget t1 ' + k, 'txiter i1 t1', 'next i1', 'next i1', 'idel i1', 'txdel t1'],
                                 ['tx t1', 'txins t1 %s %s' % (k, V()), 'commit t1', 'dump t1 rgi', 'txdel t1'], ['iter i0 ' + r, 'next i0', 'next i0', 'idel i0']])
            reg = len(regs) + 1
            b += ['ins %s %s' % (newkey(rng), V()), 'root =%d' % reg, 'dump - rgi', 'close', 'stat', 'proc']
            if rng.random() < 0.3:
                b += ['open', 'dump - rgi', 'close', 'proc']
            regs = regs + [reg]
            if rng.random() < 0.1:
                b += ['destroy', 'stat gone', 'open', 'dump - r', 'close']
                regs = None
                break
            b += ['heal', 'proc', 'open', 'dump - rghi'] + ['dump @$%d gi' % r for r in regs] + \
                 ['ins %s %s' % (newkey(rng), V()), 'root =60', 'dump @$60 gi', 'dump - rgi', 'close', 'stat', 'proc']
            regs = regs + [60]
        out.append(b)
    ctx.replay_scripts(out)
