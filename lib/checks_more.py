"""C20, C21, C24, C25: destroying, releasing, hashing, paths."""
import itertools, os
from gen import *
from vlib import SPEC
from checks_map import pick
from checks_fault import (base_history, dry, fault_history, fault_scripts, kill_points, model_histories, newkey, settle, small_limits,
                          roots_before, ERRS, MUTATING)


# --------------------------------------------------------------------- C24
def c24(ctx):
    rng = ctx.rng
    # the overridden primitives against the pure specification
    with open(os.path.join(ctx.work, 'PrimPure.tla'), 'w') as f:
        f.write(open(os.path.join(SPEC, 'Prim.tla')).read().replace('MODULE Prim ', 'MODULE PrimPure ', 1))
    txt = ctx.tlc('PrimTest', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', lib=ctx.work)
    if 'PRIMTEST' not in txt:
        raise RuntimeError('PrimTest failed:\n' + txt[-2000:])
    out = []
    lens = list(range(0, ctx.n(1100, 4200))) + [128 * k + d for k in (16, 17, 32, 64, 100, 511, 512) for d in (-1, 0, 1)]
    lens += [4095, 4096, 4097, 65535, 65536, 65537] + ctx.n([], [1 << 20, (1 << 20) + 1])
    blocks = []
    for n in sorted(set(lens)):
        l = ['hash r%d:%d' % (n, rng.randrange(10 ** 6))]
        if n <= 300:
            l += ['hash ' + ('00' * n or '-'), 'hash ' + ('ff' * n or '-')]
        blocks.append(l)
    for _ in range(ctx.n(300, 5000)):
        blocks.append(['hash r%d:%d' % (rng.randrange(2000), rng.randrange(10 ** 6))])
    # single bits
    for n in (1, 64, 127, 128, 129, 256):
        for b in rng.sample(range(8 * n), min(8 * n, ctx.n(12, 200))):
            blocks.append(['hash %0*x' % (2 * n, 1 << b)])
    # the first and last byte, and every block boundary, matter
    rng.shuffle(blocks)
    for k in range(0, len(blocks), 12):
        out.append(['new hash'] + [x for b in blocks[k:k + 12] for x in b])
    ctx.replay_scripts(out)
    ctx.replay_scripts(pick(rng, out, 20), kind='plain')
    # lengths that do not fit in 16, 24, 31 or 32 bits
    long = [(1, 3), (256, 57), (32768, 129 + rng.randrange(300)), (65536, 1 + rng.randrange(300))]
    long += ctx.n([], [(32767, 65535), (65535, 65535), (65536, 0), (65537, 128), (131072, 5)])
    ctx.replay_scripts([['new hash', 'hashlong %d %d' % x] for x in long], kind='plain', shards=len(long))


# --------------------------------------------------------------------- C25
def spelling(rng, cwd, target, absolute=None):
    """A way to write the path `target' (segments below the base folder) from
    the folder `cwd' (segments below it)."""
    if absolute is None:
        absolute = rng.random() < 0.5
    segs = []
    if absolute:
        if rng.random() < 0.2:
            head = '/' + '/'.join([''] * rng.randrange(3) + ['..'] * rng.randrange(1, 4)) + '~'
        else:
            head = rng.choice(['', '', '/', '//']) + '~'
        segs = list(target)
    else:
        common = 0
        while common < len(cwd) and common < len(target) and cwd[common] == target[common]:
            common += 1
        if rng.random() < 0.3:
            common = rng.randrange(common + 1)
        segs = ['..'] * (len(cwd) - common) + list(target[common:])
        head = None
    out = []
    for s in segs:
        while rng.random() < 0.3:
            out += rng.choice([['.'], [''], ['', ''], ['nope', '..'], ['w', '..'], ['x.y', '..', '.'], ['...', '..'], ['a', 'b', '..', '..'], ['.', '.']])
        out.append(s)
    while rng.random() < 0.35:
        out += rng.choice([['.'], [''], ['', ''], ['nope', '..'], ['..', target[-1]] if target else ['.']])
    if not absolute and out and out[0] == '':
        out.insert(0, '.')
    p = '/'.join(out)
    if head is not None:
        p = head + ('/' + p if p else '')
    return p or "''"


def c25(ctx):
    rng = ctx.rng
    ctx.model('PathTest', 'INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n' % ctx.n(7, 9))
    out = []
    # every short text, without changing anything
    texts = [''.join(t) for n in range(0, ctx.n(7, 9)) for t in itertools.product('a./', repeat=n)]
    texts += [''.join(rng.choice(['a', '.', '..', '...', '/', '/', '//', 'b.', '.c', '../', './']) for _ in range(rng.randrange(3, 25)))
              for _ in range(ctx.n(800, 20000))]
    for k in range(0, len(texts), 40):
        b = ['new probe', 'mkdirp w/v', 'cd ' + rng.choice(['w', 'w/v', '.'])]
        for t in texts[k:k + 40]:
            b.append('probe %s %s' % (rng.choice(['open', 'destroy']), t or "''"))
        out.append(b)
    # lengths around the limit
    for n in (1000, 1012, 1013, 1014, 1015, 1016, 1023, 1024, 1025, 1030, 1100, 2000, 4000, 4090, 8000, 8190, 8191, 8192):
        b = ['new probe', 'mkdirp w', 'cd w']
        for style in range(4):
            k = n
            p = ''
            while len(p) < n:
                p += '/' + 'y' * min(rng.randrange(1, 200), max(1, n - len(p) - 1))
            p = p[:n] if p[:n][-1] != '/' else p[:n - 1] + 'z'
            b.append('probe %s %s' % (['open', 'destroy'][style % 2], p + ['', '/', '/.', '/q/..'][style]))
        out.append(b)
    for n in [1005, 1011, 1012, 1013] + ctx.n([], list(range(990, 1005))):
        out.append(['new long', 'mkdirp .', 'plong %d %s' % (n, rng.choice(['', '/', '//', '/.', '/zz/..'])), 'open', 'ins %s r9:3' % newkey(rng),
                    'root =1', 'close', 'stat', 'plong %d' % n, 'open', 'root =2', 'dump - ri', 'close', 'destroy', 'stat gone'])
    for n in [1014, 1015, 1016, 1020, 1023, 1024, 1025, 1026, 1030, 1100]:
        out.append(['new long', 'mkdirp .', 'plong %d %s' % (n, rng.choice(['', '/', '//', '/.', '/zz/..'])), 'open', 'stat', 'destroy', 'stat'])
    # several databases, each under many names
    for j in range(ctx.n(150, 4000)):
        dirs = rng.sample(['a', 'b', 'p/q', 'p/r.s', '..x', '.hid', 'a..', '...', 'w/v/db', 'w/db', 'lock', 'meta', '0000000001', 'a.b/c'], 3)
        folders = ['w', 'w/v', 'p', 'a.b']
        b = ['new paths'] + ['mkdirp ' + f for f in folders] + ['keys ' + ' '.join(newkey(rng) for _ in range(2))]
        cwd = rng.choice(['.', 'w', 'w/v', 'p'])
        b.append('cd ' + cwd)
        ks = [newkey(rng) for _ in range(3)]
        for step in range(rng.randrange(4, 10)):
            d = rng.choice(dirs)
            cs = [] if cwd == '.' else cwd.split('/')
            b.append('path %s %s' % (spelling(rng, cs, d.split('/')), d))
            if rng.random() < 0.15:
                b += ['destroy', 'stat']
            else:
                b += ['open', 'dump - ri', 'ins %s r%d:%d' % (rng.choice(ks), rng.randrange(30), rng.randrange(99)), 'root =%d' % (step + 1),
                      'dump - ri', 'close', 'stat']
            if rng.random() < 0.4:
                cwd = rng.choice(['.', 'w', 'w/v', 'p'])
                b.append('cd ' + cwd)
        out.append(b)
    # a database in the current folder, and in the parent
    for j in range(ctx.n(20, 300)):
        b = ['new here', 'mkdirp w/here', 'cd w/here', 'path %s w/here' % rng.choice(['.', './', "''", './.', 'x/..', '../here', '../../w/here//']), 'open',
             'ins %s r3:3' % newkey(rng), 'root =1', 'close', 'stat', 'path %s w/here' % spelling(rng, ['w', 'here'], ['w', 'here']), 'open',
             'root =2', 'close', 'cd .', 'path %s w/here' % spelling(rng, [], ['w', 'here']), 'open', 'root =3', 'dump @$1 i', 'close', 'destroy', 'stat gone']
        out.append(b)
    ctx.replay_scripts(out)


# --------------------------------------------------------------------- C20
FOREIGN = ['foo', '0000000001.bak', '00000000011', '000000001', '9999999999', '4294967296', 'meta2', 'metadata', 'met', 'LOCK', 'lock2', 'loc',
           '000000000a', '.hidden', '0', '12345', '-000000001', '+000000001', '0000000001~', 'a0000000001', '00000-0001', '0x00000001', ' 000000001'[1:] + 'z',
           '.', 'urkel', '1', '0000000000.tmp']
FOREIGN = [f for f in FOREIGN if f != '.']


def c20(ctx):
    rng = ctx.rng
    out = []

    def again(k=0):
        return ['open', 'dump - ri', 'ins %s r%d:%d' % (newkey(rng), rng.randrange(40), k), 'root =50', 'dump @$50 i', 'close', 'proc', 'open', 'dump - ri',
                'close', 'stat']
    hs = []
    for j in range(ctx.n(40, 800)):
        lim = [None, [300, 2, 1, 114], small_limits(rng), [256, 3, 60, 400]][j % 4]
        b = base_history(rng, lim, rng.choice([1, 2, 4, 8]))
        k = b.index('proc')
        b = b[:k]
        regs = roots_before(b, len(b))
        hs.append(b)
        # nothing left, nothing known
        s = b + (['proc'] if rng.random() < 0.5 else []) + ['destroy', 'stat gone', 'destroy', 'stat gone', 'open', 'root =60', 'dump - rgi']
        for r in regs[:3]:
            s += rng.choice([['get %s $%d' % (newkey(rng), r)], ['tx t9 $%d' % r, 'txdel t9'], ['revert $%d' % r], ['iter i9 $%d' % r, 'idel i9']])
        s += ['close'] + again(j)
        out.append(s)
        # destroying again and again
        s = list(b)
        for r in range(3):
            s += ['destroy', 'stat gone'] + again(r)
        out.append(s)
    # files of others
    for j in range(ctx.n(150, 3000)):
        lim = [None, [300, 2, 1, 114], small_limits(rng)][j % 3]
        b = base_history(rng, lim, rng.choice([1, 2, 3]))
        b = b[:b.index('proc')]
        fs = rng.sample(FOREIGN, rng.choice([1, 1, 2, 4]))
        t = ['touch %s%s' % (f, ' dir' if rng.random() < 0.15 else '') for f in fs]
        if j % 5 == 0:        # no database at all
            s = b[:3 if lim else 2] + ['mkdb'] + t + ['destroy', 'stat'] + (again(j) if rng.random() < 0.3 else []) + ['untouch ' + f for f in fs] + [
                'destroy', 'stat gone']
        else:
            s = b + (['proc'] if rng.random() < 0.5 else []) + t
            if rng.random() < 0.3:
                s += ['open', 'dump - ri', 'close', 'stat']      # they do no harm
            s += ['destroy', 'stat']
            if rng.random() < 0.4:
                s += again(j)
            s += ['untouch ' + f for f in fs] + ['destroy', 'stat gone'] + again(j)
        out.append(s)
    # interrupted or failing anywhere
    ds = dry(ctx, [b + ['destroy'] for b in hs])
    some = []
    for d in ds:
        at = len(d.lines) - 1
        seen = {}
        for kd, ln, nm in d.calls.get(at, []):
            seen[kd] = seen.get(kd, 0) + 1
            fs = []
            if kd in MUTATING:
                fs += ['fault %s %d 0 %s' % (kd, seen[kd], a) for a in ('kill', 'killa')]
            fs += ['fault %s %d 0 err %s' % (kd, seen[kd], rng.choice(ERRS.get(kd, ['EIO', 'EACCES', 'EPERM'])))]
            if kd in ('unlink', 'rmdir'):
                fs += ['fault %s %d 1 err EIO' % (kd, seen[kd])]
            for f in fs:
                s = d.lines[:-1] + [f, 'destroy'] + (['proc'] if ' kill' in f or rng.random() < 0.5 else ['faultoff'])
                if rng.random() < 0.3:
                    s += ['fault unlink %d 0 %s' % (rng.randrange(1, 4), rng.choice(['kill', 'killa'])), 'destroy', 'proc']
                s += ['faultoff', 'destroy', 'stat']
                s += ['destroy', 'stat gone'] if rng.random() < 0.3 else []
                some.append(s + again(3))
    out += pick(rng, some, ctx.n(500, 20000))
    for h in model_histories(ctx, ctx.n(60, 1000), 40):
        if 'destroy' in h:
            out.append(h)
    # nothing there
    out += [['new none', 'destroy', 'stat gone', 'destroy', 'stat'] + again(1), ['new none', 'mkdb', 'stat', 'destroy', 'stat']]
    ctx.replay_scripts(out)


# --------------------------------------------------------------------- C21
def c21(ctx):
    rng = ctx.rng
    ctx.nontrivial = r'"ret":0|"f":[1-9]'
    out = []
    # calls that fail by themselves
    for j in range(ctx.n(200, 4000)):
        ks = keyset(rng, 5)
        lim = small_limits(rng) if rng.random() < 0.6 else None
        b = ['new fail', 'keys ' + ' '.join(ks)] + (['limits ' + ' '.join(map(str, lim))] if lim else []) + ['open']
        proofs = 0
        n = rng.randrange(4, 40)
        if rng.random() < 0.7:
            b += ['ins %s r9:1' % ks[0], 'root =1', 'tx t0', 'txins t0 %s r30:2' % ks[1], 'txins t0 %s r30:2' % ks[2], 'commit t0', 'root =2', 'txdel t0']
        else:
            b += ['root =1', 'root =2']
        for _ in range(n):
            k = rng.choice(ks)
            r = rng.choice(['$1', '$2', BAD, ZERO, '%064x' % rng.getrandbits(256)])
            t = rng.choice(['t1', 't2', 't3'])
            i = rng.choice(['i0', 'i1'])
            b += rng.choice([
                ['get %s %s' % (k, r)], ['has %s %s' % (k, r)], ['prove %s %s =%d' % (k, r, rng.randrange(5))], ['prove %s =%d' % (k, rng.randrange(5))],
                ['tx %s %s' % (t, r)], ['tx ' + t], ['tx ' + t], ['txinject %s %s' % (t, r)], ['revert ' + r],
                ['txins %s %s r%d:1' % (t, k, rng.choice([0, 30, 300, 1023, 1024, 2000]))], ['txrem %s %s' % (t, k)], ['rem ' + k],
                ['ins %s r%d:1' % (k, rng.choice([0, 30, 1023 if not lim else 50, 1024]))], ['commit ' + t], ['txdel ' + t], ['txdel ' + t], ['txclear ' + t],
                ['txprove %s %s =%d' % (t, k, rng.randrange(5))], ['txget %s %s' % (t, k)], ['verify %%%d %s %s' % (rng.randrange(5), k, r)],
                ['verify r%d:%d %s %s' % (rng.randrange(100), rng.randrange(99), k, r)],
                ['iter %s %s' % (i, r), 'next ' + i, 'next ' + i, 'idel ' + i], ['txiter %s %s' % (i, t), 'next ' + i, 'idel ' + i],
                ['txiter %s %s' % (i, t)] + ['next ' + i] * 8 + ['idel ' + i]])
        if lim:
            b = [l for l in b if not (l.split()[0] == 'txins' and ('r1023:' in l or 'r300:' in l))]
        b += ['idel i0', 'idel i1'] + ['txdel t%d' % t for t in range(4)] + ['close', 'stat']
        if rng.random() < 0.4:
            b += ['open', 'dump - rgip', 'close', 'stat', 'destroy', 'stat gone']
        out.append(b)
    # proofs that are wrong somewhere
    import proofs
    for j in range(ctx.n(25, 400)):
        cs = proofs.proof_cases(rng)
        out.append(['new verify'] + [proofs.verify_line(c) for c in rng.sample(cs, min(len(cs), 40))] + ['stat'])
    # and those made to fail, by any system call
    hs = [fault_history(rng, [None, [300, 2, 1, 114], small_limits(rng)][j % 3]) + ['destroy'] for j in range(ctx.n(6, 40))]
    hs += model_histories(ctx, ctx.n(20, 200))
    anyk = {'open', 'read', 'write', 'pread', 'stat', 'fstat', 'mmap', 'trunc', 'unlink', 'mkdir', 'rmdir', 'sync', 'fcntl', 'opendir', 'readdir', 'rename',
            'getcwd', 'lseek', 'munmap', 'close'}

    def faults(rng, kd, n, ln, nm):
        return ['fault %s %d %d err %s' % (kd, n, rng.choice([0, 0, 1]), rng.choice(ERRS.get(kd, ['EIO'])))]
    some = []
    for d in dry(ctx, hs):
        seen = {}
        for at in sorted(d.calls):
            live, its = [], []
            for l in d.lines[:at + 1]:
                w = l.split()
                if w[0] == 'tx' and w[1] not in live:
                    live.append(w[1])
                elif w[0] in ('iter', 'txiter') and w[1] not in its:
                    its.append(w[1])
            seen = {}
            for kd, ln, nm in d.calls[at]:
                seen[kd] = seen.get(kd, 0) + 1
                if kd not in anyk:
                    continue
                for f in faults(rng, kd, seen[kd], ln, nm):
                    s = d.lines[:at] + [f, d.lines[at], 'faultoff']
                    if rng.random() < 0.5:
                        s += [d.lines[at]] if d.lines[at].split()[0] not in ('iter', 'txiter', 'idel') else []
                    s += ['idel ' + i for i in its] + ['txdel ' + t for t in live] + ['close', 'stat']
                    if rng.random() < 0.2 and 'destroy' not in d.lines[:at + 1]:
                        s += ['open', 'dump - ri', 'close', 'stat']
                    some.append(s)
    ctx.notes.append('%d faults' % len(some))
    out += pick(rng, some, ctx.n(1000, 40000))
    ctx.replay_scripts(out)


# --------------------------------------------------------------------- C04
def c04(ctx):
    rng = ctx.rng
    for nb, vals in ctx.n([(2, '"", "61"')], [(2, '"", "61", "62"'), (3, '"61"')]):
        ctx.model('ProofSound', 'INIT Init\nNEXT Next\nCONSTANT KeyBits <- Width\nCONSTANT NB = %d\nCONSTANT Vals = {%s}\nINVARIANT Sound\n'
                  'CHECK_DEADLOCK FALSE\n' % (nb, vals))
    import proofs
    out = []
    for j in range(ctx.n(110, 6000)):
        cs = proofs.proof_cases(rng)
        rng.shuffle(cs)
        cs = cs[:ctx.n(60, 200)]
        if j % 2 == 0:
            cs += proofs.shifted_cases(rng)[:30]
        cs += proofs.collision_cases(rng)
        out.append(['new verify'] + [proofs.verify_line(c) for c in cs])
    # all bits of the first bytes; every length
    for j in range(ctx.n(6, 60)):
        c = None
        while c is None or len(c[0]) > 200:
            c = rng.choice(proofs.proof_cases(rng))
        p, key, root = c
        l = ['new flips']
        for b in range(8 * len(p)):
            if b < 64 or rng.random() < ctx.n(0.15, 1):
                x = bytearray(p); x[b >> 3] ^= 128 >> (b & 7)
                l.append(proofs.verify_line((bytes(x), key, root)))
        for n in range(len(p)):
            l.append(proofs.verify_line((p[:n], key, root)))
        out.append(l)
    # random bytes, long ones
    l = ['new junk']
    for j in range(ctx.n(300, 20000)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 36, 37, 38, 39, 68, 69, 70, rng.randrange(200)])
        x = bytearray(rng.randrange(256) for _ in range(n))
        if n > 3 and rng.random() < 0.8:
            x[1] &= 0xc1; x[3] = 0; x[2] = rng.choice([0, 0, 1, 2])
        l.append(proofs.verify_line((bytes(x), bytes(rng.randrange(256) for _ in range(32)), bytes(32))))
    out.append(l)
    l = ['new value']
    for n in (0, 1, 255, 256, 1022, 1023, 1024, 1025, 2047, 65535):     # of every length, in a tree that would have it
        k, v = bytes(rng.randrange(256) for _ in range(32)), bytes(rng.randrange(256) for _ in range(n))
        h = proofs.H(b'\0' + k + proofs.H(v))
        l.append(proofs.verify_line((proofs.enc(3, 0, [], proofs.u16(n) + v), k, h)))
        l.append(proofs.verify_line((proofs.enc(3, 1, [(0, b'', h)], proofs.u16(n) + v), k, proofs.hint(0, b'', *((h, h))))))
    out.append(l)
    for n in ctx.n([255, 256, 257, 300], [200, 254, 255, 256, 257, 258, 300, 1000]):
        for pre in (0, 256, 1):
            nodes = [(pre, bytes([0] * ((pre + 7) // 8)), bytes(32))] * n
            p = proofs.enc(3, 256, nodes, b'\0\0')
            out.append(['new long', proofs.verify_line((p, bytes(32), bytes(32))), proofs.verify_line((p + b'x' * 3000, bytes(32), bytes(32))),
                        proofs.verify_line((p[:-40], bytes(32), bytes(32)))])
    ctx.replay_scripts(out)
