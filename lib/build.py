"""Builds the library under test, from /repo's working tree, with its system
calls and allocations going through harness/vf.c."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'

CALLS = """open open64 creat openat openat64 close read pread pread64 write pwrite pwrite64 writev
stat stat64 lstat lstat64 access fstat fstat64 mmap mmap64 munmap ftruncate ftruncate64
truncate truncate64 posix_fallocate unlink remove mkdir rmdir rename link fsync fdatasync msync
lseek lseek64 getcwd fcntl fcntl64 opendir readdir readdir64 closedir
malloc calloc realloc free strdup""".split()
ALIAS = {'posix_fallocate': 'fallocate'}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout))
    return p.stdout


def sources():
    """The library's sources, as its own build lists them."""
    s = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(urkel_sources\s+([^)]*)\)', s)
    return m.group(1).split() if m else sorted(
        'src/' + f for f in os.listdir(REPO + '/src') if f.endswith('.c') and f not in ('urkel.c', 'io_posix.c', 'io_win.c'))


DEFS = ['-DURKEL_TLS=__thread', '-D_POSIX_C_SOURCE=200112', '-DURKEL_BUILD']


THREADS = """pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock
pthread_rwlock_trywrlock pthread_rwlock_unlock memcmp bcmp""".split()


def compile_lib(out, cc='gcc', flags=(), defs=(), interpose=True, name='lib', calls=()):
    """Compiles and links the library to one relocatable object."""
    d = os.path.join(out, name + '.d')
    os.makedirs(d, exist_ok=True)

    def one(src):
        o = os.path.join(d, os.path.basename(src)[:-2] + '.o')
        run([cc, '-std=gnu90', '-c', '-w', '-fPIC', '-I' + REPO + '/include', '-I' + REPO + '/src', '-U_FORTIFY_SOURCE',
             *DEFS, *defs, *flags, os.path.join(REPO, src), '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources()))
    rel = os.path.join(out, name + '.o')
    run(['ld', '-r', '-o', rel, *objs])
    if interpose:
        syms, taken = [], set()
        present = set(l.split()[-1] for l in run(['nm', '-u', rel]).splitlines() if l.split())
        for c in [*CALLS, *calls]:
            b = c[:-2] if c.endswith('64') else c
            if c in present and b not in taken:
                taken.add(b)
                syms += ['--redefine-sym', '%s=vf_%s' % (c, ALIAS.get(b, b))]
        run(['objcopy', *syms, rel])
    return rel


ASAN = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']


def driver(out, flags=ASAN, defs=('-DURKEL_DEBUG', '-DURKEL_VERIF'), name='driver', main='driver.c', extra=()):
    h = os.path.join(VERIF, 'harness')
    lib = compile_lib(out, flags=flags, defs=defs, name=name + '_lib')
    exe = os.path.join(out, name)
    run(['gcc', '-w', *flags, '-I' + REPO + '/include', '-I' + h, os.path.join(h, main), os.path.join(h, 'vf.c'), lib,
         '-o', exe, '-lpthread', *extra])
    return exe


def cli(out, flags=('-O1', '-g'), name='cli'):
    """The command-line tool, its library's system calls going through vf.c."""
    h = os.path.join(VERIF, 'harness')
    defs = ('-DURKEL_DEBUG', '-DURKEL_VERIF')
    lib = compile_lib(out, flags=flags, defs=defs, name=name + '_lib')
    exe = os.path.join(out, name)
    main = os.path.join(out, name + '_main.o')
    run(['gcc', '-std=gnu90', '-c', '-w', *flags, *DEFS, *defs, '-I' + REPO + '/include', '-I' + REPO + '/src', '-U_FORTIFY_SOURCE',
         os.path.join(REPO, 'src/urkel.c'), '-o', main])
    run(['gcc', '-w', *flags, '-I' + h, main, os.path.join(h, 'cli_vf.c'), os.path.join(h, 'vf.c'), lib, '-o', exe, '-lpthread'])
    return exe


def conc(out, name='conc'):
    """The driver for threads: see harness/conc.c."""
    h = os.path.join(VERIF, 'harness')
    defs = ('-DURKEL_DEBUG', '-DURKEL_VERIF')
    lib = compile_lib(out, cc='clang', flags=['-O1', '-g', '-fsanitize=thread'], defs=defs, name=name + '_lib', calls=THREADS)
    exe = os.path.join(out, name)
    run(['gcc', '-w', '-O1', '-g', '-DVF_CONC', '-I' + REPO + '/include', '-I' + h, os.path.join(h, 'driver.c'),
         os.path.join(h, 'vf.c'), os.path.join(h, 'conc.c'), lib, '-o', exe, '-lpthread'])
    return exe


def java(out):
    d = os.path.join(out, 'classes')
    os.makedirs(d, exist_ok=True)
    run(['javac', '-cp', JAR, '-d', d, os.path.join(VERIF, 'java', 'Prim.java')])
    return d
