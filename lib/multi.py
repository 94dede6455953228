"""C16: several processes use one database.  Schedules come from the model
ProcLock (every transition) and from stops at any system call; what the
processes see is judged by spec/Multi.tla."""
import hashlib, json, os, re

from vlib import CheckError, JOBS
from conc import Histories, drive_all, strip
from gen import parse

PROGS = {
    'write': ['open', 'ins', 'close'],
    'write2': ['open', 'ins', 'rem', 'close'],
    'tx': ['open', 'tx', 'close'],
    'read': ['open', 'dump', 'close'],
    'touch': ['open', 'close'],
    'die': ['open', 'ins'],
    'destroy': ['destroy'],
    'renew': ['destroy', 'open', 'ins', 'close'],
    'again': ['open', 'ins', 'close', 'open', 'dump', 'close'],
    'twice': ['destroy', 'destroy'],
}
BASE = ['%064x' % (x << 250) for x in (1, 7, 12)]


def key(p):
    return '%064x' % ((p << 253) | (p * 977))


def lines(p, prog, rng):
    """The script lines of process p."""
    out = []
    for j, c in enumerate(prog):
        if c == 'ins':
            out += ['ins %s r%d:%d' % (key(p), rng.choice([0, 1, 40, 200]), p * 10 + j)]
        elif c == 'rem':
            out += ['rem %s' % rng.choice(BASE + [key(p)])]
        elif c == 'tx':
            out += ['tx t0', 'txins t0 %s r9:%d' % (key(p), p), 'txrem t0 ' + BASE[0], 'commit t0', 'txdel t0']
        elif c == 'dump':
            out += ['dump - rgi']
        else:
            out += [c]
    return ['P %d %s' % (p, l) for l in out]


def steps(prog):
    """The same program for the model: calls that matter to it, others one by one."""
    out = []
    for c in prog:
        out += ['other'] * 5 if c == 'tx' else [c]
    return out


LIMITS = {'one': [], 'many': ['limits 256 2 65536 380']}


def setup(kind):
    if kind == 'none':
        return []
    out = list(LIMITS[kind]) + ['open']
    for n, k in enumerate(BASE):
        out += ['ins %s r%d:%d' % (k, (3, 120, 0)[n], n + 1)]
    return out + ['ins %s r50:9' % BASE[0], 'close', 'proc']


AFTER = ['proc', 'open', 'dump - rgi', 'close', 'proc', 'open', 'dump - gi', 'close']


def block(kind, progs, run, rng):
    out = ['new multi', 'keys ' + ' '.join(BASE + [key(p + 1) for p in range(len(progs))])]
    out += setup(kind)
    for p, g in enumerate(progs):
        out += lines(p + 1, PROGS[g], rng)
    return out + ['prun ' + run] + AFTER


def rewrite(ev):
    """Brings the events of a block into the form Multi reads: an invocation
    holds the whole call with its result, a return and a death say how far
    back it was."""
    out, open_ = [], {}
    for l in ev:
        if l.startswith('{"op":"pinv"'):
            e = json.loads(l)
            open_[e['p']] = len(out)
            out.append({'op': 'inv', 'p': e['p'], 'e': {'op': 'unfinished', 'in': e['in']}})
        elif l.startswith('{"op":"pres"'):
            e = json.loads(l)
            at = open_.pop(e['p'])
            out[at]['e'] = e['e']
            out.append({'op': 'res', 'p': e['p'], 'back': len(out) - at})
        elif l.startswith('{"op":"pwait"'):
            e = json.loads(l)
            out.append({'op': 'wait', 'p': e['p'], 'back': len(out) - open_[e['p']]})
        elif l.startswith('{"op":"pkill"'):
            e = json.loads(l)
            at = open_.pop(e['p'], None)
            e['back'] = len(out) - at if at is not None else 0
            if at is None:
                e['in'] = 'none'
            out.append(e)
        else:
            out.append(l)
    return [x if isinstance(x, str) else json.dumps(x, separators=(',', ':')) for x in out]


def model(ctx, cases):
    fn = os.path.join(ctx.work, 'cases-%s.json' % hashlib.sha256(json.dumps(cases).encode()).hexdigest()[:12])
    with open(fn, 'w') as f:
        json.dump([{'progs': [steps(PROGS[g]) for g in c['progs']], 'dir': c['kind'] != 'none', 'kills': c['kills']} for c in cases], f)
    txt = ctx.model('ProcLock', 'INIT Init\nNEXT Next\nINVARIANT Mutex NothingLost Guarded Free\nVIEW View\nACTION_CONSTRAINT Emit\n'
                    'CHECK_DEADLOCK FALSE\n', workers=1, heap='4g', env={'CASES': fn})
    t = [(x['c'] - 1, tuple(x['t'])) for x in parse(txt)]
    have = {(c, x[:n]) for c, x in t for n in range(1, len(x))}
    return [x for x in t if x not in have]


def picks(trail):
    out = []
    for x in trail:
        if x < 0:
            out.append('%dk' % -x)
        elif out and out[-1].startswith('%d*' % x):
            out[-1] = '%d*%d' % (x, int(out[-1].split('*')[1]) + 1)
        else:
            out.append('%d*1' % x)
    return 'R ' + ' '.join(out)


def anywhere(rng, n):
    """A random schedule that stops at any system call."""
    out = []
    style = rng.randrange(3)
    for _ in range(rng.randrange(1, 4)):
        p = rng.randrange(1, n + 1)
        out.append('%d*%d' % (p, rng.randrange(1, 50 if style else 12)))
        if rng.random() < 0.15:
            out.append('%dk' % p)
    return 'A ' + ' '.join(out)


def c16(ctx):
    rng = ctx.rng
    names = sorted(PROGS)
    pairs = [(a, b) for a in names for b in names if a <= b]
    three = [(a, b, c) for a, b in pairs for c in names if b <= c]
    cases = [{'progs': g, 'kind': k, 'kills': True} for g in pairs for k in ('none', 'one')]
    some = rng.sample(three, ctx.n(24, 120))
    cases3 = [{'progs': g, 'kind': rng.choice(['none', 'one']), 'kills': False} for g in some]
    trails = model(ctx, cases)
    trails3 = model(ctx, cases3)
    want = [(cases[c], t) for c, t in trails]
    q = ctx.n(7000, 10 ** 9)
    if len(want) > q:
        want = rng.sample(want, q)
    w3 = [(cases3[c], t) for c, t in trails3]
    q = ctx.n(3000, 60000)
    want += rng.sample(w3, min(q, len(w3)))
    blocks = [block(c['kind'] if c['kind'] == 'none' or rng.random() < 0.7 else 'many', c['progs'], picks(t), rng) for c, t in want]
    for _ in range(ctx.n(5000, 150000)):
        g = rng.choice(pairs) if rng.random() < 0.7 else rng.choice(three)
        g = rng.sample(g, len(g))
        blocks.append(block(rng.choice(['none', 'one', 'one', 'many']), g, anywhere(rng, len(g)), rng))
    rng.shuffle(blocks)
    H = Histories(ctx, 'Multi')

    def each(j, ev):
        H.add(blocks[j], rewrite(ev))
    at = 0
    while at < len(blocks) and not ctx.violations:
        part = blocks[at:at + 20000]
        drive_all(ctx, part, lambda j, ev: H.add(part[j], rewrite(ev)), 'plain')
        H.judge()
        at += len(part)
    ctx.samples = [H.sample]
    ctx.extra = {'runs': H.total, 'distinct_histories': len(H.seen), 'schedules_from_the_model': len(want),
                 'transitions_of_the_model': len(trails) + len(trails3)}
