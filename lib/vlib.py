"""Runs scripts in the real library and has TLC judge the recorded traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, 'spec')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, files):
        Exception.__init__(self, text)
        self.files = files


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        self.t0 = time.time()
        self.built = {}
        self.lock = threading.Lock()
        self.cov = {'model_states': 0, 'model_transitions': 0, 'scripts': 0, 'events': 0, 'traces': 0}
        self.kinds = {}
        self.distinct, self.hurt = set(), set()
        self.nontrivial = r'"f":[1-9]'      # events that make a script count
        self.samples = []
        self.notes = []
        self.violations = []
        self.dry = []
        self.extra = {}
        self.faults = 0
        self.env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', VERIF_SEED=str(self.seed), LC_ALL='C.UTF-8')

    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def classes(self):
        with self.lock:
            if 'java' not in self.built:
                self.built['java'] = build.java(self.work)
            return self.built['java']

    def driver(self, kind='asan'):
        with self.lock:
            if kind not in self.built:
                if kind == 'asan':
                    self.built[kind] = build.driver(self.work, name='driver')
                elif kind == 'plain':
                    self.built[kind] = build.driver(self.work, flags=['-O1', '-g'], name='driver_plain')
                elif kind == 'fsync':
                    self.built[kind] = build.driver(self.work, name='driver_fsync',
                                                    defs=('-DURKEL_DEBUG', '-DURKEL_VERIF', '-DURKEL_FSYNC'))
                elif kind == 'conc':
                    self.built[kind] = build.conc(self.work)
            return self.built[kind]

    def cli(self, kind='asan'):
        with self.lock:
            if 'cli' not in self.built:
                self.built['cli'] = build.cli(self.work, flags=build.ASAN if kind == 'asan' else ['-O1', '-g'])
            return self.built['cli']

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), workers='1', heap='2g', timeout=900, ok_codes=(0,), lib=None):
        """Runs TLC; returns its output."""
        d = tempfile.mkdtemp(dir=self.work)
        cfgf = os.path.join(d, os.path.basename(module) + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        cp = ':'.join([self.classes(), build.JAR, build.COMM])
        small = ['-XX:TieredStopAtLevel=1'] if heap == 'small' else []
        heap = '1g' if heap == 'small' else heap
        cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', *small,
               *(['-DTLA-Library=' + lib] if lib else []),
               '-cp', cp, 'tlc2.TLC', '-lncheck', 'final', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers),
               '-config', cfgf, *args, os.path.join(SPEC, module + '.tla')]
        e = dict(self.env)
        e.update(env or {})
        out = os.path.join(d, 'out')
        with open(out, 'w') as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError('TLC timed out on ' + module)
        txt = open(out, errors='replace').read()
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states', txt)
        if m:
            with self.lock:
                self.last_states = (int(m.group(2)), int(m.group(1)))
        if ok_codes is not None and p.returncode not in ok_codes:
            raise CheckError('TLC failed (%d) on %s:\n%s' % (p.returncode, module, txt[-3000:]))
        return txt

    def model(self, module, cfg, workers=8, heap='6g', args=(), timeout=900, env=None):
        """Checks a model; a failure is an error of the check (the model does
        not depend on /repo)."""
        txt = self.tlc(module, cfg, workers=workers, heap=heap, args=args, timeout=timeout, env=env)
        with self.lock:
            self.cov['model_states'] += self.last_states[0]
            self.cov['model_transitions'] += self.last_states[1]
        return txt

    # ------------------------------------------------------------- traces
    def drive(self, script, kind='asan', name=None, extra=()):
        """Runs one script file's text; returns the trace file."""
        d = tempfile.mkdtemp(dir=self.work)
        sf, tf, sc = d + '/script', d + '/trace', d + '/db'
        os.mkdir(sc)
        with open(sf, 'w') as f:
            f.write(script)
        try:
            p = subprocess.run([self.driver(kind), sf, tf, sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=self.env, cwd=sc, timeout=600 if self.quick() else 5000)
        except subprocess.TimeoutExpired:
            n = open(tf).read().count('{"op":"new"') if os.path.exists(tf) else 0
            raise CheckError('driver hung in block %d' % n)
        shutil.rmtree(sc, ignore_errors=True)
        return tf, p.returncode, p.stdout.decode(errors='replace')

    def judge(self, trace, n, module='Trace'):
        """TLC on one trace file: None, or the index of the rejected event."""
        cfg = TRACE_CFG
        if module in ('Lin', 'Multi', 'Cli', 'Append'):
            cfg = cfg.replace('INIT Init', 'INIT %sInit' % module[0]).replace('NEXT Next', 'NEXT %sNext' % module[0])
        txt = self.tlc(module, cfg, env={'TRACE': trace}, heap='3g')
        m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', txt)
        if not m:
            raise CheckError('no verdict from TLC:\n' + txt[-3000:])
        if module in ('Lin', 'Multi', 'Cli'):
            with self.lock:
                k = re.search(r'(\d+) states generated, (\d+) distinct states', txt)
                self.cov['model_states'] += int(k.group(2))
                self.cov['model_transitions'] += int(k.group(1))
        if m.group(1) == 'ACCEPTED':
            return None
        return int(m.group(2)) - 1

    def recheck(self):
        """After a failure of the check itself: are the histories that it
        started from, which nobody has judged, ones the specification allows?"""
        for kind, script in self.dry:
            blocks = re.split(r'(?m)^(?=new )', script)[1:]
            try:
                self.replay_scripts([re.sub('(?m)^counts 1\\n', '', b) for b in blocks], kind)
            except Exception:
                pass

    def replay_scripts(self, blocks, kind='asan', shards=None, rewrite=None, module='Trace'):
        """Runs blocks (each a list of lines starting with `new') in the
        library, and checks every trace.  Returns the number rejected."""
        blocks = [b if isinstance(b, str) else '\n'.join(b) + '\n' for b in blocks]
        if not blocks:
            return
        self.driver(kind)
        self.classes()
        shards = min(shards or JOBS, len(blocks))
        parts = [[] for _ in range(shards)]
        load = [0] * shards
        for b in blocks:        # balance by length
            j = load.index(min(load))
            parts[j].append(b)
            load[j] += len(b) + 200
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda p: self._shard(p, kind, rewrite, module), parts))

    def _shard(self, blocks, kind, rewrite, module):
        while blocks:
            tf, rc, txt = self.drive(''.join(blocks), kind)
            if rewrite:
                rewrite(tf)
            lines = open(tf).read().splitlines()
            bad = self.judge(tf, len(lines), module) if lines else None
            if bad is None and rc != 0:
                raise CheckError('driver failed (%d): %s' % (rc, txt[-2000:]))
            self._count(lines if bad is None else lines[:bad], blocks)
            if bad is None:
                os.unlink(tf)
                return
            nb = sum(1 for l in lines[:bad + 1] if l.startswith('{"op":"new"'))
            self.report(blocks[nb - 1], lines[bad], txt, lines, bad, 'trace event not allowed by spec/%s.tla' % module)
            return

    def _count(self, lines, blocks):
        ks = {}
        nf = 0
        group, hurt = -1, set()
        for l in lines:
            if l.startswith('{"op":"new"'):
                group += 1
            elif l.startswith(('{"op":"crash"', '{"op":"cut"', '{"op":"synccut"')) or re.search(self.nontrivial, l):
                hurt.add(group)
            m = re.match(r'\{"op":"(\w+)"', l)
            if m:
                ks[m.group(1)] = ks.get(m.group(1), 0) + 1
            m = re.search(r'"f":(\d+)', l)
            if m:
                nf += int(m.group(1))
        with self.lock:
            self.cov['scripts'] += len(blocks)
            self.cov['events'] += len(lines)
            self.cov['traces'] += 1
            self.faults += nf
            self.distinct.update(hashlib.sha256(x.encode()).digest() for x in blocks[:group + 1])
            self.hurt.update(hashlib.sha256(blocks[g].encode()).digest() for g in hurt if 0 <= g < len(blocks))
            for k, v in ks.items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            if len(self.samples) < 3 and blocks:
                self.samples.append(blocks[len(blocks) // 2][:1500])

    def report(self, script, event, text='', lines=None, bad=None, what='trace event not allowed by spec/Trace.tla'):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((script + event).encode()).hexdigest()[:12]
        p = os.path.join(d, '%s-%s.txt' % (self.prop, h))
        with open(p, 'w') as f:
            f.write('# property %s\n# %s:\n# %s\n' % (self.prop, what, event[:4000]))
            if lines is not None:
                s = max(j for j in range(bad + 1) if lines[j].startswith('{"op":"new"')) if any(
                    l.startswith('{"op":"new"') for l in lines[:bad + 1]) else 0
                for l in lines[max(s, bad - 12):bad]:
                    f.write('#   before: %s\n' % l[:600])
            f.write(script)
            if text:
                f.write('\n# output:\n' + '\n'.join('# ' + x for x in text[-6000:].splitlines()) + '\n')
        with self.lock:
            self.violations.append((p, event))

    # ----------------------------------------------------------- evidence
    def evidence(self, level, extra=None, rule='', assumptions=()):
        c = dict(self.cov)
        cov = {'rule': rule, 'samples': self.samples or ['(none)'], 'calls_by_kind': dict(sorted(self.kinds.items()))}
        if level == 'model_checking':
            cov.update(states=c['model_states'], transitions=c['model_transitions'],
                       traces_validated_against_impl=len(self.distinct), events_validated=c['events'])
        else:
            cov.update(evaluations=c['scripts'], events_validated=c['events'], system_calls_failed=self.faults,
                       distinct_nontrivial=len(self.hurt) if level == 'fault_enumeration' else len(self.distinct))
        cov.update(extra or self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')


TRACE_CFG = open(os.path.join(SPEC, 'Trace.cfg')).read()
