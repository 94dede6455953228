"""C01-C09: histories of calls against the map-like specification."""
import json
import re
from gen import *

H = 'ghr'


def pick(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def spread(rng, script, p=0.3):
    """Sometimes the same script with small files, few of them open, and small
    buffers, so that commits, records and nodes lie across many files."""
    if rng.random() >= p:
        return script
    big = max([113] + [int(x) for x in re.findall(r' r(\d+):', script)])
    lim = [big + rng.choice([0, 1, 38, 100, 300]), rng.choice([2, 3, 5, 32]), rng.choice([1, 60, 120, 400, 100000]),
           rng.choice([38 * 3, 38 * 10, 1 << 20])]
    head, keys, rest = script.split('\n', 2)
    assert keys.startswith('keys')
    return '\n'.join([head, keys, 'limits %d %d %d %d' % tuple(lim), rest])


def gen_blocks(ctx, nedges, nwalks, acts, what, K=2, V=2, T=2, MaxLog=3, MaxLevel=6, depth=40, hist=False, db=True, txs=True,
               wK=6, wV=4, wT=3, absent=2, lens=VLENS, obs_walk=0.34):
    rng = ctx.rng
    out = []

    def again(live, nlog, isopen):
        # open it once more, and look
        if rng.random() < 0.5:
            return ['txdel t%d' % t for t in live] * isopen + ['close'] * isopen + ['stat']
        return ['txdel t%d' % t for t in live] * isopen + ['close'] * isopen + ['open', 'dump - ' + what, 'close', 'stat']
    es = edges(ctx, K, V, T, MaxLog, MaxLevel, acts)
    ctx.notes.append('%d model transitions, %d paths' % (ctx.cov['model_transitions'], len(es)))
    for t in pick(rng, es, nedges):
        ks = keyset(rng, K + absent)
        out.append(concrete(t, ks[:K], values(rng, V, lens), 'edge', ks[K:], look(what, db, txs, hist),
                            proc_on_close=rng.random() < 0.5, final=again))
    for t in walks(ctx, nwalks, depth, wK, wV, wT, 1000, acts):
        ks = keyset(rng, wK + absent)
        o = look(what, db, txs, hist)
        f = lambda live, nlog, isopen, op: o(live, nlog, isopen, op) if rng.random() < obs_walk else []
        out.append(concrete(t, ks[:wK], values(rng, wV, lens), 'walk', ks[wK:], f, True,
                            proc_on_close=rng.random() < 0.5, final=again))
    return [spread(rng, b, 0.2) for b in out]


def radix_blocks(ctx, what, n, stored=('mem', 'com', 'reopen')):
    """Every set of 3-bit keys, spread over the 256 bits in many ways, and
    every insertion and removal from it: each in a transaction of its own."""
    rng = ctx.rng
    out = []
    for mask in range(256):
        for rep in range(n):
            key, pos = embed(rng, 3)
            keys = [key(a) for a in range(8)]
            rng.shuffle(keys)
            other = bits_key(int(keys[0], 16), [rng.randrange(256)])
            uni = keys + ([other] if other not in keys else [])
            present = [keys[a] for a in range(8) if mask >> a & 1]
            rng.shuffle(present)
            how = rng.choice(stored)
            b = ['new radix', 'keys ' + ' '.join(uni), 'open', 'tx t0']
            for k in present:
                b.append('txins t0 %s r%d:%d' % (k, rng.choice(VLENS[:10]), rng.randrange(9999)))
            # a key that was there before
            gone = [k for k in keys if k not in present]
            if gone and rng.random() < 0.5:
                k = rng.choice(gone)
                b += ['txins t0 %s r5:1' % k, 'txrem t0 ' + k]
            b.append('dump t0 ' + what)
            half = rng.random() < 0.5
            if how != 'mem':
                b += ['commit t0', 'dump t0 ' + what, 'txdel t0']
                if how == 'reopen':
                    b += ['close'] + (['proc'] if half else []) + ['open']
                b += ['root =1', 'dump - ' + what]
                for k in uni:
                    b.append('tx t1')
                    if k in present:
                        b += ['txrem t1 ' + k, 'dump t1 ' + what, 'txins t1 %s r30:7' % k]
                    else:
                        b += ['txrem t1 ' + k, 'txins t1 %s r30:7' % k, 'dump t1 ' + what]
                        if rng.random() < 0.5:
                            b += ['txrem t1 ' + k]
                    b += ['dump t1 ' + what, 'txdel t1']
            else:
                for k in uni:
                    if k in present:
                        b += ['txrem t0 ' + k, 'dump t0 ' + what, 'txins t0 %s r31:8' % k]
                    else:
                        b += ['txins t0 %s r31:8' % k, 'dump t0 ' + what, 'txrem t0 ' + k]
                    b.append('dump t0 ' + what)
                b.append('txdel t0')
            b += ['close', 'stat']
            out.append('\n'.join(b) + '\n')
    return out


def deep_blocks(ctx, what, depths):
    """Trees as deep as they can be: key j differs from the base in bit j."""
    rng = ctx.rng
    out = []
    for d in depths:
        base = rng.choice([0, (1 << 256) - 1, rng.getrandbits(256)])
        start = rng.choice([0, 256 - d]) if d < 256 else 0
        keys = ['%064x' % base] + [bits_key(base, [start + j]) for j in range(d)]
        order = keys[:]
        rng.shuffle(order)
        b = ['new deep', 'keys ' + ' '.join(pick(rng, keys, 40) if d > 40 else keys), 'open', 'tx t0']
        b += ['txins t0 %s r%d:%d' % (k, rng.randrange(40), rng.randrange(999)) for k in order]
        b += ['dump t0 ' + what, 'commit t0', 'root =1', 'dump - ' + what, 'txdel t0', 'close', 'proc', 'open', 'dump - ' + what,
              'tx t1']
        for k in order[:len(order) // 3]:
            b += ['txrem t1 ' + k]
        b += ['dump t1 ' + what]
        b += ['commit t1', 'txins t1 %s r2:2' % order[0], 'dump t1 ' + what, 'txdel t1', 'dump - ' + what,
              'dump @$1 ' + what.replace('r', ''), 'close', 'stat']
        out.append('\n'.join(b) + '\n')
    return out


def big_blocks(ctx, what, sizes):
    """Many random keys, in several commits."""
    rng = ctx.rng
    out = []
    for n in sizes:
        keys = ['%064x' % rng.getrandbits(256) for _ in range(n)]
        b = ['new big', 'keys ' + ' '.join(pick(rng, keys, 60)), 'open']
        left = keys[:]
        for c in range(3):
            b.append('tx t0')
            part = left[c::3]
            for k in part:
                b.append('txins t0 %s r%d:%d' % (k, rng.choice(VLENS), rng.randrange(9999)))
            for k in pick(rng, part, len(part) // 4):
                b.append('txrem t0 ' + k)
            if c == 1:
                b.append('dump t0 ' + what)
            b += ['commit t0', 'txdel t0', 'root =%d' % (c + 1)]
        b += ['dump - ' + what, 'close', 'proc', 'open', 'dump - ' + what, 'dump @$1 ' + what.replace('r', ''),
              'dump @$2 ' + what.replace('r', ''), 'close', 'stat']
        out.append('\n'.join(b) + '\n')
    return out


def value_blocks(ctx, lens, what='gh'):
    """Every given value length: alone or with another key; in memory,
    committed, reopened, overwritten and shrunk."""
    rng = ctx.rng
    out = []
    for n in lens:
        ks = keyset(rng, 3)
        v = 'r%d:%d' % (n, rng.randrange(9999))
        w = 'r%d:%d' % (rng.choice(VLENS), rng.randrange(9999))
        b = ['new value', 'keys ' + ' '.join(ks), 'open', 'tx t0']
        if rng.random() < 0.5:
            b.append('txins t0 %s %s' % (ks[1], w))
        b += ['txins t0 %s %s' % (ks[0], v), 'dump t0 ' + what, 'commit t0', 'dump t0 ' + what, 'dump - ' + what, 'txdel t0',
              'close', 'open', 'root =1', 'dump - ' + what,
              'ins %s %s' % (ks[0], w), 'dump - ' + what, 'dump @$1 ' + what.replace('r', ''),
              'ins %s %s' % (ks[0], v), 'ins %s %s' % (ks[2], v), 'get ' + ks[0], 'close', 'proc', 'open', 'dump - ' + what,
              'close', 'stat']
        out.append('\n'.join(b) + '\n')
    return out


def toobig_blocks(ctx):
    rng = ctx.rng
    out = []
    for n in (1024, 1025, 1279, 1280, 2047, 2048, 65535, 65536, 65537, 66559, 131072 + 5):
        ks = keyset(rng, 2)
        out.append('\n'.join(['new toobig', 'keys ' + ' '.join(ks), 'open', 'ins %s r9:1' % ks[0], 'tx t0',
                              'txins t0 %s r%d:1' % (ks[0], n), 'txins t0 %s r%d:1' % (ks[1], n), 'dump t0 ghr',
                              'ins %s r%d:1' % (ks[0], n), 'ins %s r%d:1' % (ks[1], n), 'dump - ghr', 'commit t0', 'txdel t0',
                              'txrem t0 ' + ks[1], 'rem ' + ks[1], 'dump - ghr', 'close', 'stat']) + '\n')
    return out


MAPACTS = ['open', 'close', 'kill', 'tx', 'txdel', 'txins', 'txrem', 'commit', 'ins', 'rem', 'bad']


def c01(ctx):
    b = gen_blocks(ctx, ctx.n(500, 20000), ctx.n(120, 2000), MAPACTS, 'gh', MaxLevel=ctx.n(6, 7))
    b += radix_blocks(ctx, 'gh', ctx.n(1, 12))
    b += deep_blocks(ctx, 'gh', ctx.n([17, 64, 256], [1, 2, 7, 8, 9, 31, 64, 127, 128, 129, 200, 255, 256]))
    b += big_blocks(ctx, 'gh', ctx.n([60, 300], [60, 300, 1000, 2000]))
    lens = list(range(1024)) if not ctx.quick() else sorted(set(VLENS + list(range(0, 1024, 37)) + [254, 258, 767, 768, 769]))
    b += value_blocks(ctx, lens)
    b += toobig_blocks(ctx)
    ctx.replay_scripts(b)


RADIX = '''INIT Init
NEXT Next
INVARIANTS Canonical Finds Closed Full Near FreshLeaves OnePath
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Vals = {%s} Most = %d Ops = %d KBit <- TBit KBits <- TBits
'''


def radix_model(ctx, quick, thorough):
    for depth, vals, most, ops in ctx.n(quick, quick + thorough):
        ctx.model('RadixTest', RADIX % (depth, vals, most, ops), timeout=3000)


def c02(ctx):
    radix_model(ctx, [(3, '1', 8, 2)], [(3, '1, 2', 8, 2), (4, '1', 5, 2)])
    b = gen_blocks(ctx, ctx.n(400, 20000), ctx.n(120, 2000), MAPACTS + ['txat', 'txclear', 'revert', 'txinject', 'destroy'], 'r',
                   MaxLevel=ctx.n(5, 6))
    b += radix_blocks(ctx, 'r', ctx.n(2, 20))
    b += deep_blocks(ctx, 'r', ctx.n([17, 64, 256], [1, 2, 7, 8, 9, 31, 64, 127, 128, 129, 200, 255, 256]))
    b += big_blocks(ctx, 'r', ctx.n([60, 300], [60, 300, 1000, 2000]))
    b += value_blocks(ctx, ctx.n(VLENS, list(range(1024))), 'r')
    ctx.replay_scripts(b)


def c03(ctx):
    b = gen_blocks(ctx, ctx.n(250, 10000), ctx.n(60, 1500), MAPACTS + ['txat'], 'pv', MaxLevel=ctx.n(5, 6), hist=True, absent=4)
    b += radix_blocks(ctx, 'pv', ctx.n(1, 12))
    b += deep_blocks(ctx, 'pv', ctx.n([17, 128, 256], [1, 2, 7, 8, 9, 31, 64, 127, 128, 129, 200, 255, 256]))
    b += big_blocks(ctx, 'pv', ctx.n([60], [60, 300, 1000]))
    b += value_blocks(ctx, ctx.n(VLENS, list(range(1024))), 'pv')
    b += prefix_blocks(ctx, ctx.n(range(0, 256, 5), range(0, 256)))
    ctx.replay_scripts(b)


def prefix_blocks(ctx, lens):
    """Two keys that share exactly n bits, and keys that leave the prefix at
    every interesting place."""
    rng = ctx.rng
    out = []
    for n in lens:
        base = rng.getrandbits(256)
        a, c = '%064x' % base, bits_key(base, [n])
        qs = [bits_key(base, [j]) for j in sorted(set([0, max(0, n - 1), n // 2, min(255, n + 1), 255])) if j != n]
        qs += ['%064x' % rng.getrandbits(256)]
        b = ['new prefix', 'keys ' + ' '.join([a, c] + qs), 'open', 'tx t0', 'txins t0 %s r3:1' % a, 'txins t0 %s r4:2' % c,
             'dump t0 rpv', 'commit t0', 'dump t0 pv', 'txdel t0', 'root =1', 'ins %s -' % qs[0], 'dump - pv', 'dump @$1 pv', 'close',
             'proc', 'open', 'dump - pv', 'dump @$1 pv', 'tx t0', 'txrem t0 ' + qs[0], 'dump t0 rpv', 'txdel t0', 'close', 'stat']
        out.append('\n'.join(b) + '\n')
    return out


def c05(ctx):
    b = gen_blocks(ctx, ctx.n(300, 10000), ctx.n(100, 1500), MAPACTS + ['txat'], 'i', MaxLevel=ctx.n(5, 6), hist=True)
    b += radix_blocks(ctx, 'i', ctx.n(1, 12))
    b += deep_blocks(ctx, 'i', ctx.n([1, 2, 17, 127, 128, 129, 255, 256], list(range(1, 257, 3)) + [255, 256]))
    b += big_blocks(ctx, 'i', ctx.n([60, 300], [60, 300, 1000, 2000]))
    b += iter_blocks(ctx, ctx.n(60, 1000))
    ctx.replay_scripts(b)


def iter_blocks(ctx, n):
    """Several iterators at once, key-only steps, early destruction, asking
    again after the end, trees that mix stored and unstored parts."""
    rng = ctx.rng
    out = []
    for j in range(n):
        m = rng.choice([0, 1, 1, 2, 3, 5, 9, 20])
        ks = keyset(rng, m + 1)
        b = ['new iter', 'open', 'tx t0']
        b += ['txins t0 %s r%d:%d' % (k, rng.choice(VLENS[:8]), j) for k in ks[:m]]
        if rng.random() < 0.6:
            b += ['commit t0', 'root =1']
        if m > 2 and rng.random() < 0.7:
            b += ['txrem t0 ' + ks[0], 'txins t0 %s r7:7' % ks[m], 'txins t0 %s r8:8' % ks[1]]
        b += ['txiter i0 t0', 'txiter i1 t0', 'iter i2']
        for s in range(rng.randrange(2 * m + 6)):
            b.append('next i%d%s' % (rng.randrange(3), ' k' if rng.random() < 0.3 else ''))
        if rng.random() < 0.7:
            b += ['next i0'] * (m + 4)
        b += ['idel i%d' % x for x in rng.sample(range(3), 3)] + ['txdel t0', 'close', 'stat']
        out.append('\n'.join(b) + '\n')
    return out


def c06(ctx):
    acts = ['open', 'tx', 'txat', 'txdel', 'txclear', 'txinject', 'txins', 'txrem', 'commit', 'ins', 'rem', 'revert']
    b = gen_blocks(ctx, ctx.n(900, 30000), ctx.n(150, 3000), acts, 'grpi', K=2, V=1, T=2, MaxLog=2, MaxLevel=ctx.n(7, 8), absent=1,
                   depth=60, lens=VLENS[:8])
    ctx.replay_scripts(b)


def c07(ctx):
    acts = ['open', 'close', 'tx', 'txat', 'txdel', 'txins', 'txrem', 'commit', 'ins', 'rem', 'kill']
    def more(live, nlog, isopen):
        # reopen twice at the end, and look
        out = []
        if isopen:
            out += ['txdel t%d' % t for t in live] + ['close']
        return out + ['open', 'dump - rgi', 'close', 'proc', 'open', 'dump - rgi', 'close', 'stat']
    rng = ctx.rng
    out = []
    es = edges(ctx, 2, 2, 2, 3, ctx.n(6, 7), acts)
    for t in pick(rng, es, ctx.n(700, 30000)):
        ks = keyset(rng, 3)
        out.append(concrete(t, ks[:2], values(rng, 2), 'edge', ks[2:], look('rgi'), proc_on_close=rng.random() < 0.5, final=more))
    # commits at or after older states
    back = ['open', 'close', 'tx', 'txat', 'txdel', 'txclear', 'txinject', 'commit', 'ins', 'revert']
    es = edges(ctx, 1, 2, 1, 3, ctx.n(7, 8), back)
    for t in pick(rng, es, ctx.n(350, 20000)):
        ks = keyset(rng, 2)
        out.append(concrete(t, ks[:1], values(rng, 2), 'edge', ks[1:], look('rgi'), proc_on_close=rng.random() < 0.3, final=more))
    for t in walks(ctx, ctx.n(120, 2000), 50, 6, 4, 3, 1000, acts + ['revert', 'txinject', 'txclear']):
        ks = keyset(rng, 8)
        o = look('rgi')
        f = lambda live, nlog, isopen, op: o(live, nlog, isopen, op) if op[0] in ('open', 'commit') or rng.random() < 0.1 else []
        out.append(concrete(t, ks[:6], values(rng, 4), 'walk', ks[6:], f, True, proc_on_close=rng.random() < 0.5, final=more))
    out += value_blocks(ctx, ctx.n(VLENS, list(range(1024))), 'rgi')
    out += big_blocks(ctx, 'rgi', ctx.n([60, 300], [60, 300, 1000, 2000]))
    ctx.replay_scripts(out)


def c08(ctx):
    acts = ['open', 'close', 'kill', 'tx', 'txat', 'bad', 'txdel', 'txinject', 'txins', 'commit', 'ins', 'rem', 'revert']
    b = gen_blocks(ctx, ctx.n(600, 20000), ctx.n(60, 1500), acts, 'gi', K=2, V=1, T=1, MaxLog=3, MaxLevel=ctx.n(7, 8), hist=True,
                   depth=50, wT=2, obs_walk=0.12, lens=VLENS[:8])
    b += history_blocks(ctx, ctx.n(60, 1500))
    ctx.replay_scripts(b)


def history_blocks(ctx, n):
    """Long chains of commits; after reopening, roots are asked for in random
    order through every call that takes one, with unknown roots in between."""
    rng = ctx.rng
    out = []
    for j in range(n):
        ks = keyset(rng, 6)
        b = ['new history', 'keys ' + ' '.join(ks), 'open']
        nc = 90 if j % 30 == 29 else rng.choice([1, 2, 3, 6, 12, 25])
        if rng.random() < 0.3:
            b += ['tx t0', 'commit t0', 'txdel t0']      # an empty commit first
        for c in range(1, nc + 1):
            k = rng.choice(ks)
            b += ['tx t0'] + ['txins t0 %s r%d:%d' % (rng.choice(ks), rng.choice(VLENS[:9]), rng.randrange(9999)) for _ in range(2)]
            if rng.random() < 0.3:
                b += ['txrem t0 ' + k]
            if rng.random() < 0.2:
                b += ['txroot t0 =99', 'get %s $99' % k]   # not committed yet
            b += ['commit t0', 'root =%d' % c, 'txdel t0']
            if rng.random() < 0.15:
                b += ['close', 'open']
        if rng.random() < 0.7:
            b += ['close', 'proc', 'open']
        order = [rng.choice(list(range(1, nc + 1)) + [0, -1]) for _ in range(8)]
        for r in order:
            h = ZERO if r == 0 else ('%064x' % rng.getrandbits(256)) if r == -1 else '$%d' % r
            c = rng.randrange(7)
            k = rng.choice(ks)
            if c == 0:
                b += ['get %s %s' % (k, h)]
            elif c == 1:
                b += ['has %s %s' % (k, h)]
            elif c == 2:
                b += ['prove %s %s' % (k, h)]
            elif c == 3:
                b += ['tx t1 ' + h, 'dump t1 gr', 'txdel t1']
            elif c == 4:
                b += ['tx t1', 'txinject t1 ' + h, 'dump t1 gr', 'txdel t1']
            elif c == 5:
                b += ['revert ' + h, 'dump - gr', 'ins %s r12:%d' % (k, r + 5), 'revert ' + h, 'dump - r']
            else:
                b += ['iter i0 ' + h] + ['next i0'] * 7 + ['idel i0']
            if rng.random() < 0.3:
                b += ['get %s %064x' % (k, rng.getrandbits(256)), 'dump - r']
        b += ['dump @$%d gi' % r for r in sorted(pick(rng, range(1, nc + 1), 25))]
        b += ['close', 'stat']
        out.append(spread(rng, '\n'.join(b) + '\n', 0.4))
    return out


def c09(ctx):
    acts = ['open', 'close', 'tx', 'txat', 'bad', 'txdel', 'txclear', 'txinject', 'txins', 'commit', 'ins', 'rem', 'revert']
    b = gen_blocks(ctx, ctx.n(800, 30000), ctx.n(120, 2000), acts, 'gri', K=2, V=1, T=1, MaxLog=2, MaxLevel=ctx.n(7, 8), depth=50, wT=3,
                   lens=VLENS[:8])
    # clearing equals creating
    rng = ctx.rng
    for j in range(ctx.n(40, 600)):
        ks = keyset(rng, 4)
        x = ['new clear', 'keys ' + ' '.join(ks), 'open', 'tx t3']
        for c in range(1, 4):
            x += ['ins %s r%d:%d' % (rng.choice(ks), rng.choice(VLENS[:9]), c), 'root =%d' % c]
        x += ['revert ' + rng.choice(['$1', '$2', '$3', '$2', '$3', ZERO, BAD, '$3^255', '$2^9']), 'tx t1', 'txins t1 %s r3:3' % rng.choice(ks), 'txclear t1', 'txclear t3',
              'dump t1 gri', 'dump t3 gri', 'dump - gri', 'txinject t1 ' + BAD, 'dump t1 gri',
              'txinject t3 ' + rng.choice(['$1', '$2', '$3']), 'dump t3 gri', 'dump - gri', 'commit t1',
              'dump t3 gri', 'dump - gri', 'txclear t3', 'dump t3 gri', 'txdel t1', 'txdel t3', 'close', 'open', 'dump - gri', 'close', 'stat']
        b.append(spread(rng, '\n'.join(x) + '\n'))
    ctx.replay_scripts(b)
