"""Scripts from the behaviours TLC finds in spec/Gen.tla, and other script makers."""
import json, re

CFG = '''INIT GInit
NEXT GNext
CONSTANT
  Root <- GRoot
  TooBig <- GTooBig
  Sorted <- GSorted
  K = {%(K)s}
  V = {%(V)s}
  T = {%(T)s}
  MaxLog = %(MaxLog)d
  MaxLevel = %(MaxLevel)d
  Acts = {%(Acts)s}
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
'''
PROPS = 'PROPERTY Isolation History HeadMoves OpenFinds CommitSets\n'

ALL = 'open close kill destroy tx txat bad txdel txclear txinject txins txrem commit ins rem revert'.split()


def cfg(K, V, T, MaxLog, MaxLevel, Acts):
    f = lambda n: ','.join(str(j) for j in range(1, n + 1))
    return CFG % dict(K=f(K), V=f(V), T=f(T), MaxLog=MaxLog, MaxLevel=MaxLevel, Acts=','.join('"%s"' % a for a in Acts))


def parse(txt):
    out = []
    for l in txt.splitlines():
        if l.startswith('"@'):
            out.append(json.loads(json.loads(l)[1:]))
    return out


def edges(ctx, K, V, T, MaxLog, MaxLevel, Acts):
    """Every transition of the bounded model, each with a shortest path to it.
    Paths that are a prefix of another are left out."""
    c = cfg(K, V, T, MaxLog, MaxLevel, Acts) + PROPS + 'VIEW View\nCONSTRAINT Bound\nACTION_CONSTRAINT Emit\n'
    trails = parse(ctx.model('Gen', c, workers=1, heap='8g'))
    have = set()
    for t in trails:
        for n in range(1, len(t)):
            have.add(json.dumps(t[:n]))
    return [t for t in trails if json.dumps(t) not in have]


def walks(ctx, num, depth, K, V, T, MaxLog, Acts, seed=None):
    c = cfg(K, V, T, MaxLog, depth, Acts) + 'INVARIANT EmitWalk\n'
    txt = ctx.tlc('Gen', c, workers=1, heap='2g',
                  args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed or ctx.seed)])
    return parse(txt)


# ------------------------------------------------------------------ concrete
BAD = 'f00dfacef00dfacef00dfacef00dfacef00dfacef00dfacef00dfacef00dface'
ZERO = '00' * 32


def bits_key(base, setbits):
    """The 256-bit integer base with the given bits (0 = most significant) flipped."""
    x = base
    for b in setbits:
        x ^= 1 << (255 - b)
    return '%064x' % x


def embed(rng, nbits, pos=None):
    """Puts nbits abstract bits at chosen positions of a random background key."""
    base = rng.choice([0, (1 << 256) - 1, rng.getrandbits(256), rng.getrandbits(256)])
    if pos is None:
        style = rng.randrange(5)
        if style == 0:
            s = rng.randrange(0, 257 - nbits)
            pos = list(range(s, s + nbits))
        elif style == 1:
            pos = sorted(rng.sample([0, 1, 7, 8, 9, 15, 16, 63, 64, 126, 127, 128, 129, 130, 135, 136, 254, 255], nbits))
        else:
            pos = sorted(rng.sample(range(256), nbits))
    def key(a):
        return bits_key(base, [p for j, p in enumerate(pos) if (a >> (nbits - 1 - j)) & 1])
    return key, pos


VLENS = [0, 1, 2, 20, 32, 64, 100, 255, 256, 257, 300, 511, 512, 1000, 1022, 1023]


def keyset(rng, n):
    """n different keys which share prefixes."""
    nb = max(1, (n - 1).bit_length() + rng.randrange(2))
    key, _ = embed(rng, nb)
    ks = [key(a) for a in rng.sample(range(1 << nb), n)]
    return ks


def values(rng, n, lens=VLENS):
    ls = rng.sample(lens, n) if n <= len(lens) else [rng.choice(lens) for _ in range(n)]
    return ['r%d:%d' % (l, rng.randrange(1, 10 ** 6)) for l in ls]


def concrete(trail, keys, vals, name='', extra_keys=(), obs=None, obs_every=False, limits=None, proc_on_close=None,
             final=None):
    """A script for one behaviour of Gen.  obs(live, nlog, isopen, op) gives
    lines that look at the state."""
    out = ['new ' + name, 'keys ' + ' '.join(list(keys) + list(extra_keys))]
    if limits:
        out.append('limits ' + ' '.join(str(x) for x in limits))
    nlog, live, isopen = 0, set(), False

    def bad(n):
        """A root that no commit has, perhaps but for one bit."""
        if n % 3 == 0:
            return BAD
        if n % 3 == 1 or not nlog:
            return '%064x' % (1 << n * 17 % 256 if n % 4 else 1)
        return '$%d^%d' % (1 + n % nlog, 255 if n % 4 else n * 37)

    def root(p):
        return '@' if p is None else ZERO if p == 0 else bad(j + len(trail)) if p == 9 else '$%d' % p

    for j, op in enumerate(trail):
        a = op[0]
        if a == 'open':
            out.append('open'); isopen = True
        elif a == 'close':
            out.append('close'); isopen = False
            if proc_on_close:
                out.append('proc')
        elif a == 'kill':
            out += ['kill', 'proc']; live = set(); isopen = False
        elif a == 'destroy':
            out.append('destroy'); nlog = 0
        elif a == 'tx':
            out.append('tx t%d%s' % (op[1], '' if len(op) < 3 else ' ' + root(op[2])))
            if len(op) < 3 or op[2] != 9:
                live.add(op[1])
        elif a == 'txdel':
            out.append('txdel t%d' % op[1]); live.discard(op[1])
        elif a == 'txclear':
            out.append('txclear t%d' % op[1])
        elif a == 'txinject':
            out.append('txinject t%d %s' % (op[1], root(op[2])))
        elif a == 'txins':
            out.append('txins t%d %s %s' % (op[1], keys[op[2] - 1], vals[op[3] - 1]))
        elif a == 'txrem':
            out.append('txrem t%d %s' % (op[1], keys[op[2] - 1]))
        elif a == 'commit':
            out.append('commit t%d' % op[1]); nlog += 1; out.append('root =%d' % nlog)
        elif a == 'ins':
            out.append('ins %s %s' % (keys[op[1] - 1], vals[op[2] - 1])); nlog += 1; out.append('root =%d' % nlog)
        elif a == 'rem':
            out.append('rem %s' % keys[op[1] - 1]); nlog += 1; out.append('root =%d' % nlog)
        elif a == 'revert':
            out.append('revert ' + root(op[1]))
        else:
            raise ValueError(a)
        if obs and (obs_every or j == len(trail) - 1):
            out += obs(sorted(live), nlog, isopen, op)
    if final:
        out += final(sorted(live), nlog, isopen)
    else:
        out += ending(sorted(live), nlog, isopen)
    return '\n'.join(out) + '\n'


def ending(live, nlog, isopen):
    if not isopen:
        return []
    return ['txdel t%d' % t for t in live] + ['close', 'stat']


def rng_bit(n, op):
    return 255 if n % 2 else sum(map(ord, str(op))) * 37 % 256


def look(what, db=True, txs=True, hist=False):
    """Observation of everything that is alive."""
    def obs(live, nlog, isopen, op):
        if not isopen:
            return []
        out = []
        if db:
            out.append('dump - ' + what)
        if txs:
            out += ['dump t%d %s' % (t, what) for t in live]
        if hist:
            w = what.replace('r', '')
            order = list(range(1, nlog + 1))
            if nlog % 2:
                order.reverse()
            out += ['dump @$%d %s' % (j, w) for j in order] + ['get %s %s' % ('00' * 32, r) for r in [BAD, '%064x' % 1] + (['$%d^%d' % (nlog, rng_bit(nlog, op))] if nlog else [])]
            out += ['dump @%s %s' % (ZERO, w)]
        return out
    return obs
