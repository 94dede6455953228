"""C22: command lines, judged by spec/Cli.tla."""
import itertools

from checks_more import spelling
from checks_map import pick


def hexarg(rng, n=None):
    """A value as an argument."""
    n = rng.choice([0, 1, 2, 20, 32, 100, 511, 512, 513, 1022, 1023]) if n is None else n
    if n == 0:
        return "''"
    return '%s:r%d:%d' % (rng.choice('vvvV'), n, rng.randrange(10 ** 6))


ODD = ["''", '0', 'abc', 'zz', '0g', 'g0', 'x:20', 'x:3020', 'x:2030', '0x00', 'x:c3a9', 'x:ff', 'x:80', 'x:40', 'x:47', 'x:2f', 'x:3a', 'x:60', 'x:67',
       'x:4047', 'x:3a30', 'x:303a', 'x:2f30', 'x:302f', 'x:6730', 'x:3067', 'x:6030', 'x:3060']
FAULTS = [('open', 'err EACCES'), ('open', 'err EMFILE'), ('read,pread', 'err EIO'), ('write', 'err ENOSPC'), ('write', 'parterr ENOSPC 40'), ('mmap', 'err ENOMEM'),
          ('fstat', 'err EIO'), ('stat', 'err EACCES'), ('fcntl', 'err ENOLCK'), ('unlink', 'err EACCES'), ('rmdir', 'err EACCES'), ('mkdir', 'err ENOSPC'),
          ('read,write', 'short EIO 1'), ('opendir', 'err EMFILE'), ('sync', 'err EIO'), ('pread', 'short EIO 7')]


class Gen:
    def __init__(self, rng, faults):
        self.rng = rng
        self.faults = faults
        self.out = ['new cli', 'mkdirp w/v']
        self.dirs = ['db', 'w/db', 'w/v', 'other']
        self.cwd, self.env = None, None
        self.cwds = ['w', 'w/v', '.', 'w/v']
        self.keys = ['v:r32:%d' % rng.randrange(1000) for _ in range(rng.randrange(1, 4))]
        self.names = ['foo', 'bar', "''", 'x:666f6f20', 'get', 'x:e28882', 'create']
        self.nroot, self.nproof = 0, 0
        self.proofs = []

    def key(self, hashed):
        r = self.rng
        if hashed:
            return r.choice(self.names[:3]) if r.random() < 0.8 else r.choice(self.names + self.keys)
        k = r.choice(self.keys)
        return 'V' + k[1:] if r.random() < 0.3 else k

    def root(self):
        r = self.rng
        if self.nroot and r.random() < 0.85:
            return 'R:%d' % r.randrange(1, min(self.nroot, 100) + 1)
        return r.choice(['v:r32:5', '0' * 64, 'f' * 64])

    def target(self):
        """DIR and the options that lead to it."""
        r = self.rng
        d = r.choice(self.dirs[:2] if r.random() < 0.8 else self.dirs)
        how = r.randrange(10)
        segs = d.split('/')
        cur = self.cwd.split('/') if self.cwd not in (None, '.') else []
        if self.cwd is None:
            cur = None
        if how < 6 or (self.env != d and self.cwd != d):
            p = spelling(r, cur, segs) if cur is not None else spelling_abs(r, segs)
            return d, [r.choice(['-p', '--path']), p]
        if self.env is not None:
            return self.env, []
        if self.cwd is not None and self.cwd != '.':
            return self.cwd, []
        return d, ['-p', '~/' + d]

    def mix(self, pos, opts):
        """Options anywhere among the arguments."""
        out = list(pos)
        for o in opts:
            at = self.rng.randrange(len(out) + 1) if self.rng.random() < 0.6 else len(out)
            out.insert(at, tuple(o) if isinstance(o, (list, tuple)) else (o,))
        flat = []
        for x in out:
            flat += list(x) if isinstance(x, tuple) else [x]
        return flat

    def command(self, act=None):
        r = self.rng
        act = act or r.choices(['create', 'destroy', 'info', 'root', 'get', 'insert', 'remove', 'list', 'prove', 'verify'],
                               [2, 1, 3, 3, 6, 8, 3, 3, 4, 4])[0]
        d, opts = self.target()
        opts = [opts] if opts else []
        pos = [act]
        keep = ''
        if act in ('get', 'insert', 'remove', 'prove', 'verify'):
            h = r.random() < 0.35
            if h:
                opts.append([r.choice(['-H', '--hash'])])
            pos.append(self.key(h))
        if act == 'insert':
            pos.append(hexarg(r) if r.random() < 0.95 else hexarg(r, 1024))
        if act == 'verify':
            if self.proofs and r.random() < 0.85:
                n, k, rt = r.choice(self.proofs)
                if r.random() < 0.8:
                    pos = ['verify', k]
                    opts = [o for o in opts if o[0] not in ('-H', '--hash')]
                    if k[0] not in 'vV':
                        opts.append(['-H'])
                pos.append('P:%d' % n)
                if rt and r.random() < 0.8:
                    opts.append(['-r', rt])
                elif r.random() < 0.8:
                    opts.append(['--root', self.root()])
            else:
                pos.append(hexarg(r))
                opts.append(['-r', self.root()])
            if r.random() < 0.5:
                opts = [o for o in opts if o[0] not in ('-p', '--path')]
        elif act in ('get', 'prove', 'info', 'list', 'root') and r.random() < 0.4:
            opts.append([r.choice(['-r', '--root']), self.root()])
        elif r.random() < 0.1:
            opts.append(['-r', self.root()])
        if r.random() < 0.04:
            pos.append(r.choice(['extra', '00', "''"]))
        if act == 'root' and not self.faults:
            self.nroot += 1
            keep = '=R%d ' % (1 + self.nroot % 100)
        if act == 'prove':
            self.nproof += 1
            n = self.nproof % 100
            keep = '=P%d ' % n
            rt = next((o[1] for o in opts if o[0] in ('-r', '--root')), None)
            self.proofs = [x for x in self.proofs if x[0] != n] + [(n, pos[1], rt)]
        self.out.append('cli %s %s%s' % (d, keep, ' '.join(self.mix(pos, opts))))
        if act == 'destroy' and d == 'w/v':     # it may be gone
            self.cwds = ['w', '.']
            if self.cwd == d:
                self.cwd = '.'
                self.out.append('cd .')
        if act in ('insert', 'remove', 'create') and not self.faults and r.random() < 0.6:
            self.nroot += 1
            self.out.append('cli %s =R%d root -p ~/%s' % (d, 1 + self.nroot % 100, d))
        return d

    def wrong(self):
        """A command line that is refused or only asks for help."""
        r = self.rng
        key, odd = self.key(False), r.choice(ODD)
        p = ['-p', '~/' + r.choice(self.dirs)]
        c = r.choice([
            [], [r.choice(['-h', '--help'])], ['bla'], ['Create'], ['creat'], ['creates'], ["''"], ['-x'], ['-'], ['--'], ['--hash'], ['--paths', 'x'], ['create', '--force'],
            ['create', '-p'], ['create', '--path'], ['create', '-r'], ['list', '-r', odd], ['list', '-r', 'v:r31:1'], ['list', '-r', 'v:r33:1'], ['info', '--root', 'v:r32:1', '-r'],
            ['get'], ['get', odd], ['get', 'v:r31:1'], ['get', 'v:r33:3'], ['remove'], ['remove', odd], ['prove'], ['prove', 'v:r2:2'], ['insert'], ['insert', key],
            ['insert', odd, '00'], ['insert', key, r.choice([x for x in ODD if x != "''"])], ['insert', key, 'v:r1025:1'], ['insert', key, 'v:r3000:4'], ['insert', '-H', 'foo'],
            ['verify'], ['verify', key], ['verify', key, 'v:r40:1'], ['verify', key, r.choice([x for x in ODD if x != "''"]), '-r', 'v:r32:8'], ['verify', '-H', 'foo', '00'],
            ['get', '-H'], ['create', 'help', '-h'], ['destroy', '--help'], ['destroy', '-hH'], ['destroy', '-?'], ['insert', key, '00', '-'], ['-r', 'zz', '--help'], ['--help', '-r', 'zz'],
            ['destroy'] + ['a'] * 31 + ['b'], ['get'] + ['a'] * 40, ['list', '-pfoo'], ['list', '--path=foo'], ['remove', key, '-r', "''"], ['create', '-r', 'R:0', 'P:0'][:2] + ["''"],
        ])
        if r.random() < 0.7:
            c = p + c if r.random() < 0.5 and not (c and c[-1] in ('-p', '--path', '-r')) else c if c and c[-1] in ('-p', '--path', '-r') else c + p
        self.out.append('cli - ' + ' '.join(c))

    def look(self):
        r = self.rng
        d = r.choice(self.dirs[:2])
        self.out += ['path ~/%s %s' % (d, d), 'open']
        if r.random() < 0.3:       # the tool finds it taken
            for _ in range(r.randrange(1, 3)):
                a = r.choice([['list'], ['insert', self.keys[0], '00'], ['destroy'], ['create'], ['root'], ['remove', self.keys[0]], ['get', self.keys[0]], ['info']])
                self.out.append('cli %s %s -p ~/%s' % (d, ' '.join(a), d))
        self.out += ['dump - ri', 'close', 'stat']

    def fault(self):
        r = self.rng
        if r.random() < 0.5:        # somewhere among the reads
            self.out.append('fault %s %d %d err %s' % (('open', r.randrange(2, 14), r.choice([0, 0, 1]), 'EACCES') if r.random() < 0.5
                                                     else ('read,pread', r.randrange(1, 6), r.choice([0, 0, 1]), 'EIO')))
            self.command(r.choice(['get', 'list', 'list', 'info', 'info', 'prove', 'insert', 'remove', 'root']))
        else:
            k, a = r.choice(FAULTS)
            self.out.append('fault %s %d %d %s' % (k, r.choice([1, 1, 1, 2, 2, 3, 4, 5, 8]), r.choice([0, 0, 1]), a))
            self.command()
        self.out.append('faultoff')

    def block(self, n):
        r = self.rng
        if r.random() < 0.6:        # more in it, in many files or one
            d = r.choice(self.dirs[:2])
            lim = [r.choice([300, 600]), 32, 100, 300] if r.random() < (0.7 if self.faults else 0.3) else None
            if lim:
                self.out.append('limits %d %d %d %d' % tuple(lim))
            self.out += ['path ~/%s %s' % (d, d), 'open', 'tx 0']
            ks = ['r32:%d' % r.randrange(1000) for _ in range(r.randrange(2, 9))]
            self.keys += ['v:' + k for k in ks[:3]]
            self.out += ['txins 0 %s r%d:%d' % (k, r.choice([0, 5, 300] if lim else [0, 5, 300, 600, 1023]), j) for j, k in enumerate(ks)]
            self.out += ['commit 0', 'txdel 0', 'close']
            if lim:
                self.out.append('limits 2147483647 32 1048576 1048576')
        for d in self.dirs[:2]:
            self.out.append('cli %s %s -p ~/%s' % (d, r.choice(['create', 'create', 'info', 'insert %s 0102' % self.keys[0]]), d))
        for _ in range(n):
            x = r.random()
            if x < 0.06:
                self.cwd = r.choice(self.cwds)
                self.out.append('cd ' + self.cwd)
            elif x < 0.12:
                self.env = r.choice([None, 'db', 'w/db', 'w/v'])
                self.out.append('clienv ' + ('-' if self.env is None else '~/' + self.env))
            elif x < 0.30:
                self.wrong()
            elif x < 0.38:
                self.look()
            elif self.faults and x < 0.7:
                self.fault()
            else:
                self.command()
        self.look()
        return self.out


def spelling_abs(r, segs):
    p = '~/' + '/'.join(segs)
    if r.random() < 0.3:
        p += r.choice(['/', '//', '/.', '/x/..'])
    return p


def c22(ctx):
    rng = ctx.rng
    ctx.env['VF_CLI'] = ctx.cli()
    ctx.nontrivial = r'"op":"cli"'
    blocks = []
    for j in range(ctx.n(400, 8000)):
        blocks.append(Gen(rng, False).block(rng.randrange(8, 25)))
    for j in range(ctx.n(200, 4000)):
        blocks.append(Gen(rng, True).block(rng.randrange(8, 20)))
    # every read of a database of many files may fail
    for j in range(ctx.n(4, 40)):
        ks = ['r32:%d' % rng.randrange(1000) for _ in range(rng.randrange(5, 9))]
        b = ['new files', 'mkdirp w', 'limits 300 32 100 300', 'path ~/db db', 'open', 'tx 0']
        b += ['txins 0 %s r%d:%d' % (k, rng.choice([0, 5, 200]), j) for j, k in enumerate(ks)]
        b += ['commit 0', 'txdel 0', 'close', 'limits 2147483647 32 1048576 1048576']
        for act in ['list', 'info', 'get v:' + ks[0], 'prove v:' + ks[1], 'insert v:%s 0102' % ks[2], 'remove v:' + ks[3], 'root', 'create']:
            one = []
            for n in range(1, 16):
                one += ['fault open %d %d err EACCES' % (n, rng.randrange(2)), 'cli db -p ~/db ' + act, 'faultoff']
            blocks.append(b + one + ['cli db -p ~/db list'])
    # all short command lines
    words = ['create', 'get', 'insert', 'verify', 'list', 'destroy', '-p', '~/w/db', '-r', '0' * 64, '-H', '-h', '5A' * 32, '00', "''"]
    lines = [t for n in range(0, 4) for t in itertools.product(words, repeat=n)]
    lines += pick(rng, list(itertools.product(words, repeat=4)), ctx.n(1500, 10 ** 6))
    lines += [tuple(rng.choice(words) for _ in range(rng.randrange(5, 9))) for _ in range(ctx.n(800, 20000))]
    rng.shuffle(lines)
    for k in range(0, len(lines), 40):
        b = ['new words', 'mkdirp w/v', 'cd w/v', 'clienv ~/db']
        for t in lines[k:k + 40]:
            d, j = 'db', 0
            while j < len(t):
                if t[j] == '-p' and j + 1 < len(t):
                    d = t[j + 1]
                    d = d[2:] if d[0] == '~' else '' if d == "''" else 'w/v/%s' % d
                j += 2 if t[j] in ('-p', '-r') else 1
            if d:
                b.append('cli %s %s' % (d, ' '.join(t)))
        blocks.append(b)
    # long paths
    for n in (1000, 1012, 1013, 1014, 1020, 1024, 1030, 1100):
        for a in ('create', 'info', 'root', 'destroy', 'insert v:r32:1 00'):
            blocks.append(['new long', 'plong %d' % n, 'cli @ %s -p @' % a])
    ctx.replay_scripts(blocks, module='Cli')
