"""C27: the files of a database are those of spec/Disk.tla, both ways."""
import hashlib, json, os, tempfile
from concurrent.futures import ThreadPoolExecutor

import checks_map as M
from gen import *

CFG = 'INIT Init\nNEXT Next\nINVARIANT Inverse Done\nCHECK_DEADLOCK FALSE\n'


def val(rng, n):
    return ''.join('%02x' % rng.randrange(256) for _ in range(n))


def history(rng, ncommits, nkeys, maxlen):
    """Contents of successive commits."""
    ks = keyset(rng, nkeys)
    if rng.random() < 0.4:      # and keys that share all but the last few bits with one of them
        ks += [bits_key(int(rng.choice(ks), 16), [b]) for b in rng.sample(range(256), 3)]
        ks = sorted(set(ks))
    cur, out = {}, []
    for j in range(ncommits):
        x = rng.random()
        if x < 0.08:
            cur = {}
        elif x < 0.12 and out:
            cur = dict(rng.choice(out))     # a former contents again
        else:
            for _ in range(rng.randrange(1, 4) if rng.random() < 0.8 else nkeys):
                k = rng.choice(ks)
                if k in cur and rng.random() < 0.3:
                    del cur[k]
                else:
                    cur[k] = val(rng, rng.choice([0, 1, 5, 40, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, rng.randrange(1024)])
                                 if maxlen >= 1023 else rng.randrange(maxlen + 1))
        out.append(dict(cur))
    return ks, out


def images(ctx, jobs):
    """Has TLC write the images; returns its results in the order of jobs."""
    n = min(8, len(jobs))
    res = [None] * len(jobs)

    def run(part):
        d = tempfile.mkdtemp(dir=ctx.work)
        with open(d + '/jobs', 'w') as f:
            for j in part:
                f.write(json.dumps(jobs[j]['spec']) + '\n')
        ctx.model('DiskGen', CFG, workers=1, heap='3g', env={'JOBS': d + '/jobs', 'OUT': d + '/out'})
        for j, l in zip(part, open(d + '/out')):
            res[j] = json.loads(l)
    ctx.classes()
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(run, [range(len(jobs))[i::n] for i in range(n)]))
    return res


def job(rng, ncommits, nkeys, maxlen, mfs, f0=0, base=0):
    ks, log = history(rng, ncommits, nkeys, maxlen)
    return {'ks': ks, 'log': log,
            'spec': {'key': val(rng, 32), 'mfs': mfs, 'f0': f0, 'base': base, 'log': [[[k, v] for k, v in sorted(m.items())] for m in log]}}


def load(rng, j, img):
    """A script that opens an image."""
    s = j['spec']
    ks = j['ks'] + [bits_key(int(rng.choice(j['ks']), 16), [rng.randrange(256)])]
    b = ['new load', 'keys ' + ' '.join(sorted(set(ks))), 'limits %d %d 67108864 %d' % (s['mfs'], rng.choice([1, 2, 5, 32]), rng.choice([38, 114, 5000, 1 << 20]))]
    if s['f0']:
        b.append('rawfiles %d' % s['f0'])
    b.append('raw 0 0 ' + img['img']['key'])
    for f, x in enumerate(img['img']['files']):
        if f >= s['f0']:
            b.append('raw %d %s' % (f + 1, '%d %s' % (x['s'][0][0], x['s'][0][1]) if x['s'] else '%d -' % x['n']))
    b += ['load', 'open', 'dump - rghip']
    roots = img['roots']
    for r in rng.sample(roots, len(roots)):
        b.append('dump @%s %s' % (r, rng.choice(['gi', 'gp', 'gh'])))
    for _ in range(rng.randrange(3)):
        b.append(rng.choice(['ins %s r%d:%d' % (rng.choice(ks), rng.choice(VLENS if s['mfs'] > 1100 else VLENS[:4]), rng.randrange(9999)), 'rem ' + rng.choice(ks)]))
    if rng.random() < 0.5:
        b += ['tx t0 ' + rng.choice(roots), 'txins t0 %s r3:1' % rng.choice(ks), 'commit t0', 'txdel t0']
    b += ['image', 'dump - gi', 'close', 'proc', 'image', 'open', 'dump - rgi', 'dump @%s g' % rng.choice(roots), 'close', 'destroy']
    return b


def with_images(rng, text, p=0.3):
    """The same script, looking at the files now and then."""
    out, op = [], False
    for l in text.strip().split('\n'):
        out.append(l)
        w = l.split()[0]
        if w in ('close', 'destroy') or (w in ('commit', 'ins', 'rem', 'open', 'txins', 'revert') and rng.random() < p):
            out.append('image')
    return out


def big_tree(rng, n, mfs, wb, spread):
    """A large commit, then small ones."""
    ks = ['%064x' % rng.getrandbits(256) for _ in range(n)]
    b = ['new big', 'keys ' + ' '.join(rng.sample(ks, min(n, 12))), 'limits %d 8 %d 4096' % (mfs, wb), 'open', 'tx t0']
    for j, k in enumerate(ks):
        b.append('txins t0 %s r%d:%d' % (k, rng.choice(spread), j))
        if rng.random() < 3 / n:
            b += ['commit t0']
    b += ['commit t0', 'image', 'dump t0 gi', 'txdel t0', 'rem ' + ks[0], 'ins %s r7:7' % ks[1], 'close', 'proc', 'image', 'open', 'dump - rgip', 'close']
    return b


def c27(ctx):
    rng = ctx.rng
    jobs = []
    for _ in range(ctx.n(110, 1200)):
        mfs = rng.choice([1023, 1100, 2000, 3000, 8192, 100000, 0x7ffff000])
        jobs.append(job(rng, rng.randrange(1, 9), rng.randrange(1, 12), 1023, mfs))
    for _ in range(ctx.n(30, 300)):     # many files
        jobs.append(job(rng, rng.randrange(2, 12), rng.randrange(3, 20), 100, rng.choice([114, 120, 152, 200])))
    for base in [0, 1, 37, 38, 127, 128, 32767, 32768, 65535, 65536, 1 << 23, (1 << 24) - 60, (1 << 30) - 100, 0x7fffe000, 0x7fffefff, 0x7ffff000]:
        for _ in range(ctx.n(2, 12)):   # far into a file
            jobs.append(job(rng, rng.randrange(1, 6), rng.randrange(1, 8), 1023, 0x7ffff000, 0, base))
    for f0 in [126, 127, 128, 254, 255, 256] + ctx.n([rng.choice([16382, 16384, 32000, 32760])], [4095, 16382, 16383, 16384, 32000, 32760]):
        for _ in range(ctx.n(1, 3)):    # far into the files
            jobs.append(job(rng, rng.randrange(2, 6), rng.randrange(2, 8), 100, 300 if f0 < 20000 else 8192, f0))
    imgs = images(ctx, jobs)
    blocks = [load(rng, j, i) for j, i in zip(jobs, imgs)]
    # what the library writes
    acts = [a for a in ALL if a not in ('bad',)]
    made = M.gen_blocks(ctx, ctx.n(120, 1500), ctx.n(12, 200), acts, 'r', depth=40)
    rb = M.radix_blocks(ctx, 'r', 1)
    made += rng.sample(rb, ctx.n(60, len(rb)))
    blocks += [with_images(rng, m if isinstance(m, str) else '\n'.join(m)) for m in made]
    blocks += [big_tree(rng, *x) for x in [(60, 114, 64, [0, 1, 20]), (150, 4096, 2048, [0, 5, 64]), (80, 0x7ffff000, 1 << 26, VLENS),
                                           (90, 2000, 500, [255, 256, 511, 512, 1000]), (130, 1 << 20, 1000, [1023, 1000])]]
    ctx.replay_scripts(blocks)
