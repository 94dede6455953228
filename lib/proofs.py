"""Makes byte strings that look like proofs (inputs only: TLC decides what
each of them means).  Python's own BLAKE2b makes the trees they are about."""
import hashlib
from gen import *


def H(x):
    return hashlib.blake2b(x, digest_size=32).digest()


Z = bytes(32)


def bit(k, i):
    return k[i >> 3] >> (7 - (i & 7)) & 1


def pack(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (7 - (i & 7))
    return bytes(out)


def u16(n):
    return bytes([n & 255, n >> 8 & 255])


def hint(n, data, l, r):
    return H(b'\1' + l + r) if n == 0 else H(b'\2' + u16(n) + data + l + r)


class Node:
    pass


def tree(m, keys, d):
    t = Node()
    t.d = d
    if not keys:
        t.t, t.h = 'null', Z
    elif len(keys) == 1:
        t.t, t.key = 'leaf', keys[0]
        t.vh = H(m[t.key])
        t.h = H(b'\0' + t.key + t.vh)
    else:
        b = d
        while len({bit(k, b) for k in keys}) == 1:
            b += 1
        t.t, t.n, t.bits = 'int', b - d, [bit(keys[0], j) for j in range(d, b)]
        t.l = tree(m, [k for k in keys if not bit(k, b)], b + 1)
        t.r = tree(m, [k for k in keys if bit(k, b)], b + 1)
        t.h = hint(t.n, pack(t.bits), t.l.h, t.r.h)
    return t


def descend(t, key, stop=None):
    """The nodes passed on the way of key, and the place reached."""
    nodes = []
    while t.t == 'int' and len(nodes) != stop:
        e = t.d + t.n
        if [bit(key, j) for j in range(t.d, e)] != t.bits:
            break
        b = bit(key, e)
        nodes.append((t.n, pack(t.bits), (t.l if b else t.r).h))
        t = t.r if b else t.l
    return nodes, t


def encbits(n, data, wide=None):
    wide = n >= 128 if wide is None else wide
    return (bytes([128 | n >> 8 & 127]) if wide else b'') + bytes([n & 255]) + data


# A node with data None has its empty prefix spelled out.
def enc(typ, depth, nodes, rest, count=None, presence=None, wide=None):
    c = len(nodes) if count is None else count
    p = bytearray((c + 7) // 8)
    for i, (n, _, _) in enumerate(nodes):
        if (n or nodes[i][1] is None) and i >> 3 < len(p):
            p[i >> 3] |= 128 >> (i & 7)
    if presence:
        for i in presence:
            if i >> 3 < len(p):
                p[i >> 3] ^= 128 >> (i & 7)
    return u16(typ << 14 | depth & 0x3fff) + u16(c) + bytes(p) + b''.join(
        (encbits(n, d or b'', wide) if n or d is None else b'') + h for n, d, h in nodes) + rest


def remainder(rng, m, t, key, typ):
    """Some remainder of the type, as near to the place t as possible."""
    if typ == 0:
        return b''
    if typ == 1:
        if t.t == 'int':
            n, bits, l, r = t.n, t.bits[:], t.l.h, t.r.h
        else:
            n, bits, l, r = 1, [rng.randrange(2)], t.h, Z
        if n == 0:
            return encbits(0, b'') + l + r
        return encbits(n, pack(bits)) + l + r
    if typ == 2:
        if t.t == 'leaf':
            return t.key + t.vh
        k = rng.choice(list(m))
        return rng.choice([key, k]) + H(m[k])
    v = m[key] if key in m else m[t.key] if t.t == 'leaf' else m[rng.choice(list(m))]
    return u16(len(v)) + v


def proof_cases(rng):
    """Yields (bytes, key, root) for one random tree: genuine proofs, proofs
    with parts of others, and proofs with one thing wrong."""
    nk = rng.choice([1, 2, 2, 3, 4, 5, 8, 12])
    ks = [bytes.fromhex(k) for k in keyset(rng, nk + 2)]
    out_keys = ks[nk:]
    m = {k: bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 8, 31, 32, 33]))) for k in ks[:nk]}
    root = tree(m, sorted(m), 0)
    pool = [root.h, Z]
    def walk(t):
        pool.append(t.h)
        if t.t == 'int':
            walk(t.l); walk(t.r)
    walk(root)
    base = rng.choice(ks)
    near = bytearray(base)
    near[rng.randrange(32)] ^= 1 << rng.randrange(8)
    keys = ks + [bytes(near), bytes(rng.randrange(256) for _ in range(32))]
    if root.t == 'int':     # leaves the path inside a prefix, or right at a branch
        n_, t_ = descend(root, base)
        for x in rng.sample(range(t_.d + 1), min(3, t_.d + 1)):
            if x < 256:
                k = bytearray(base)
                k[x >> 3] ^= 128 >> (x & 7)
                keys.append(bytes(k))
    out = []

    def add(p, key, r=None):
        out.append((p, key, root.h if r is None else r))

    for key in rng.sample(keys, min(len(keys), 4)):
        nodes, t = descend(root, key)
        full = len(nodes)
        typ = {'null': 0, 'int': 1, 'leaf': 3 if getattr(t, 'key', None) == key else 2}[t.t]
        rest = remainder(rng, m, t, key, typ)
        good = enc(typ, t.d, nodes, rest)
        add(good, key)
        # for another key, against another root
        other = rng.choice(keys)
        add(good, other)
        add(good, key, rng.choice(pool + [H(b'x')]))
        # stopping early, any type
        for stop in {full, rng.randrange(full + 1), max(0, full - 1), 0}:
            ns, u = descend(root, key, stop)
            for ty in range(4):
                add(enc(ty, u.d, ns, remainder(rng, m, u, key, ty)), key)
            # a lie about what is there
            if u.t == 'int':
                w = max(1, u.n)
                bits = (u.bits or [0])[:]
                bits[rng.randrange(w)] ^= 1
                add(enc(1, u.d, ns, encbits(w, pack(bits)) + u.l.h + u.r.h), key)
                add(enc(1, u.d, ns, encbits(w, pack(u.bits or [0])) + u.r.h + u.l.h), key)
                if u.n > 1:
                    add(enc(1, u.d, ns, encbits(u.n - 1, pack(u.bits[:-1])) + u.l.h + u.r.h), key)
            if u.t == 'leaf':
                add(enc(2, u.d, ns, key + u.vh), key)
                add(enc(2, u.d, ns, u.key + u.vh), u.key)
                add(enc(2, u.d, ns, u.key + u.vh), key)
                add(enc(3, u.d, ns, u16(len(m[u.key])) + m[u.key]), key)
                v = m[u.key] + b'!'
                add(enc(3, u.d, ns, u16(len(v)) + v), u.key)
        # wrong depth
        for dd in (-2, -1, 1, 2, 8, 255 - t.d, 256 - t.d, 257 - t.d, 0x3fff - t.d, -t.d, rng.randrange(300)):
            if 0 <= t.d + dd <= 0x3fff:
                add(enc(typ, t.d + dd, nodes, rest), key)
        # one node wrong
        for _ in range(3):
            if not nodes:
                break
            j = rng.randrange(full)
            n, d, h = nodes[j]
            ns = nodes[:]
            c = rng.randrange(13)
            depth = t.d
            if c == 0:
                ns[j] = (n, d, rng.choice(pool))
            elif c == 1:
                del ns[j]
            elif c == 2:
                ns.insert(j, ns[j])
            elif c == 3:
                x = rng.randrange(full)
                ns[j], ns[x] = ns[x], ns[j]
            elif c == 4 and n:
                x = bytearray(d); x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)      # a bit of the prefix, or of its padding
                ns[j] = (n, bytes(x), h)
            elif c == 5 and n:
                ns[j] = (n - 1, pack([d[q >> 3] >> (7 - (q & 7)) & 1 for q in range(n - 1)]), h)
                depth -= rng.randrange(2)
            elif c == 6:
                ns[j] = (n + 1, pack([d[q >> 3] >> (7 - (q & 7)) & 1 for q in range(n)] + [rng.randrange(2)]), h)
                depth += rng.randrange(2)
            elif c == 7 and n > 1:
                q = rng.randrange(n)
                bits = [d[q >> 3] >> (7 - (q & 7)) & 1 for q in range(n)]
                ns[j:j + 1] = [(q, pack(bits[:q]), Z), (n - q - 1, pack(bits[q + 1:]), h)]
            elif c == 8:
                ns[j] = (0, b'', h)
                depth -= n
            elif c == 9:
                ns = ns[j:]
            elif c == 10:
                ns = ns[:j]
            elif c == 11:
                ns[j] = (256 - rng.randrange(3), bytes(rng.randrange(256) for _ in range(32)), h)
            else:
                ns = [(0, b'', H(b'pad'))] * rng.randrange(1, 4) + ns
                depth += len(ns) - full
            add(enc(typ, max(0, depth), ns, rest), key)
            add(enc(typ, t.d, ns, rest), key)
        # encoding
        add(enc(typ, t.d, nodes, rest, wide=True), key)
        bare = [j for j in range(full) if nodes[j][0] == 0]
        if bare:
            j = rng.choice(bare)
            for wide in (None, True):
                add(enc(typ, t.d, nodes[:j] + [(0, None, nodes[j][2])] + nodes[j + 1:], rest, wide=wide), key)
        add(enc(typ, t.d, nodes, rest, presence=[rng.randrange(full + 8)]), key)
        for c in (full + 1, max(0, full - 1), 256, 257, 65535, rng.randrange(65536)):
            add(enc(typ, t.d, nodes, rest, count=c), key)
        add(good + bytes(rng.randrange(1, 40)), key)
        add(good + good, key)
        for _ in range(6):
            add(good[:rng.randrange(len(good) + 1)], key)
        for _ in range(10):
            x = bytearray(good)
            y = rng.choice([rng.randrange(len(x)), rng.randrange(min(len(x), 6)), len(x) - 1 - rng.randrange(min(len(x), 34))])
            x[y] = rng.choice([x[y] ^ 1 << rng.randrange(8), 0, 255, rng.randrange(256), 128])
            add(bytes(x), key)
        if typ == 3:
            for n in (0, len(m[key]) + 1, len(m[key]) - 1, 1023, 1024, 65535):
                if n >= 0:
                    add(enc(3, t.d, nodes, u16(n) + m[key]), key)
                    add(enc(3, t.d, nodes, u16(n) + (m[key] + bytes(70000))[:n]), key) if n < 1100 else None
        # any other remainder
        for _ in range(3):
            ty = rng.randrange(4)
            add(enc(ty, t.d, nodes, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 33, 34, 63, 64, 65, 66, 67, 96, 97, 98])))), key)
    return out


def shifted_cases(rng):
    """Proofs of places that a key does not lead to: the path of another key,
    bits taken from other depths."""
    out = []
    # a tree whose path repeats itself, so that a proof fits at other depths
    pat = [rng.randrange(2) for _ in range(rng.choice([1, 2, 3]))]
    n = rng.choice([2, 3, 5, 9])
    bits = (pat * 256)[:256]
    base = pack(bits)
    ks = [base]
    for j in range(n):
        k = bytearray(base)
        k[j >> 3] ^= 128 >> (j & 7)
        for _ in range(3):
            x = rng.randrange(n + 1, 256)
            k[x >> 3] ^= 128 >> (x & 7)
        ks.append(bytes(k))
    m = {k: b'v%d' % j for j, k in enumerate(ks)}
    gone = rng.random() < 0.5
    if gone:
        del m[base]
    root = tree(m, sorted(m), 0)
    nodes, t = descend(root, base)
    typ = {'null': 0, 'int': 1, 'leaf': 3 if getattr(t, 'key', None) == base else 2}[t.t]
    rest = remainder(rng, m, t, base, typ)
    for s in range(0, 9):
        for ty in (typ, 0, 1, 2):
            out.append((enc(ty, min(t.d + s, 300), nodes, rest if ty == typ else remainder(rng, m, t, base, ty)), base, root.h))
        if s <= len(nodes):
            sub, u = descend(root, base, s)
            out.append((enc(typ, t.d, nodes[s:], rest), base, u.h))
            out.append((enc(typ, t.d - u.d, nodes[s:], rest), base, u.h))
            out.append((enc(typ, t.d, nodes[s:], rest), base, root.h))
    return out


def collision_cases(rng):
    """Keys that skip over a prefix: the only thing that tells is the prefix."""
    a = rng.getrandbits(256)
    out = []
    p = rng.choice([0, 1, 3, 8, 100, 250])
    w = rng.randrange(1, min(60, 254 - p) + 1) if p < 253 else 1
    e = p + w                           # branch after the prefix p..e-1
    k1 = bytes.fromhex(bits_key(a, []))
    k2 = bytes.fromhex(bits_key(a, [e]))
    others = [bytes.fromhex(bits_key(a, [j])) for j in range(p)][:3]
    m = {k1: b'one', k2: b'two'}
    for o in others:
        m[o] = b'three'
    root = tree(m, sorted(m), 0)
    for x in (k1, k2):
        ns, t = descend(root, x)
        for off in {p, e - 1, rng.randrange(p, e)}:
            q = bytearray(x)
            q[off >> 3] ^= 128 >> (off & 7)
            q = bytes(q)            # not in the tree, differs inside the prefix
            out.append((enc(2, t.d, ns, x + H(m[x])), q, root.h))
            out.append((enc(3, t.d, ns, u16(len(m[x])) + m[x]), q, root.h))
            out.append((enc(0, t.d, ns, b''), q, root.h))
            if len(ns) > 0:
                ns2, t2 = descend(root, x, len(ns) - 1)
                if t2.t == 'int' and t2.n:
                    out.append((enc(1, t2.d, ns2, encbits(t2.n, pack(t2.bits)) + t2.l.h + t2.r.h), q, root.h))
                    out.append((enc(1, t2.d, ns2, encbits(t2.n, pack(t2.bits)) + t2.l.h + t2.r.h), x, root.h))
    # what is deeper than a key
    for d, n in ((250, 6), (250, 7), (255, 1), (255, 2), (256, 1), (256, 256), (0, 256), (1, 256)):
        bits = [bit(k1, j) if j < 256 else 0 for j in range(d, d + n)]
        l, r = H(b'l'), H(b'r')
        h = hint(n, pack(bits), l, r)
        nodes = [(0, b'', H(bytes([j]))) for j in range(d % 256 if d < 256 else 256)]
        for j in reversed(range(len(nodes))):
            h = hint(0, b'', nodes[j][2], h) if bit(k1, j) else hint(0, b'', h, nodes[j][2])
        out.append((enc(1, d, nodes, encbits(n, pack(bits)) + l + r), k1, h))
    return out


def verify_line(c):
    p, key, root = c
    return 'verify %s %s %s' % (p.hex() or '-', key.hex(), root.hex())
