"""C29: what a commit adds to the files (spec/Append.tla)."""
import checks_map as M
from disk import big_tree
from gen import *

def measured(rng, text, p=0.6):
    """The same script, looking at how the files grow."""
    out = []
    for l in (text if isinstance(text, str) else '\n'.join(text)).strip().split('\n'):
        out.append(l)
        w = l.split()[0]
        if w in ('new', 'kill', 'proc', 'destroy'):    # (the next process knows no earlier snap)
            out.append('snap')
        elif w in ('open', 'commit', 'ins', 'rem', 'close', 'dump') and rng.random() < p:
            out += ['grown'] + (['snap'] if rng.random() < 0.8 else [])
        elif rng.random() < 0.1:
            out.append('grown')
    out += ['grown']
    return out


def c29(ctx):
    rng = ctx.rng
    M.radix_model(ctx, [(3, '1', 8, 3), (3, '1, 2', 5, 2)], [(3, '1, 2', 8, 3), (4, '1', 6, 3), (4, '1, 2', 4, 2)])
    acts = [a for a in ALL if a not in ('bad',)]
    blocks = [measured(rng, b) for b in M.gen_blocks(ctx, ctx.n(250, 3000), ctx.n(40, 400), acts, 'r', depth=40)]
    rb = M.radix_blocks(ctx, 'r', 1)
    blocks += [measured(rng, b) for b in rng.sample(rb, ctx.n(120, len(rb)))]
    blocks += [measured(rng, b) for b in M.deep_blocks(ctx, 'r', ctx.n([33, 256], [7, 8, 9, 64, 129, 255, 256]))]
    for b in M.gen_blocks(ctx, ctx.n(60, 600), ctx.n(10, 100), acts, 'r', depth=40):    # many files
        b = measured(rng, b)
        b.insert(1, 'limits %d %d %d %d' % (rng.choice([1100, 1300, 2000]), rng.choice([2, 5, 32]), rng.choice([1, 400, 100000]), rng.choice([114, 5000])))
        blocks.append(b)
    for n, spread in [(60, [0, 1, 20]), (120, [0, 5, 64]), (80, VLENS), (60, [1023, 1000])]:
        for _ in range(ctx.n(1, 6)):
            b = big_tree(rng, n, rng.choice([2000, 8192, 0x7ffff000]), rng.choice([500, 4096, 1 << 26]), spread)
            blocks.append(measured(rng, [l for l in b if l != 'image'], 1))
    ctx.replay_scripts(blocks, module='Append')
