"""Which check decides which property, and how."""
import checks_map as M
import checks_fault as F
import checks_more as X
import conc as T
import multi as P
import cli as L
import disk as D
import append as A

CHECKS = {}


def add(prop, run, level, technique, rule, note, assumptions=()):
    CHECKS[prop] = dict(run=run, level=level, technique=technique, rule=rule, note=note, assumptions=list(assumptions))


TRUST = ('Trusted: TLC and its Java override of the BLAKE2b compression (spec/Prim.tla, checked against spec/Blake2b.tla), the '
         'driver and its stand-ins for system calls (harness/), gcc.')

# ---------------------------------------------------------------------- C04
add('C04', X.c04, 'model_checking', 'TLA+ specification of proofs: soundness of its verifier model-checked (ProofSound), forged and damaged proofs '
    'given to the library and judged by TLC (Merkle, Trace)',
    'proofs of random trees, stopped early, at another depth, of another type, for other keys, with parts of other proofs and with one node, length, '
    'count, bit or byte changed; every bit and length of some; random bytes', 'An attacker who knows the tree cannot make the specified verifier accept '
    'a falsehood (keys of one byte, all maps of 4 or 8 keys); the library gives the answer of the specification for every byte string tried. ',
    ['BLAKE2b-256 has no collisions'])

# ---------------------------------------------------------------- C01 - C09
T_MAP = 'TLA+ specification (Urkel, Merkle) explored by TLC; behaviours replayed in the library, traces checked by TLC (Trace)'
R_MAP = ('every transition of a bounded instance of spec/Gen.tla (sampled in the quick tier) and random walks of it, concretized with keys '
         'that share chosen prefixes and values of chosen lengths, plus exhaustive small key sets, deep and large trees; distinct '
         'scripts are counted; every script contains at least one call whose result is compared with spec/Trace.tla')
N_MAP = ('Every behaviour of the bounded model satisfies the invariants; the library agrees with the specification on every call of the '
         'replayed behaviours (all 3-bit key sets with every insertion and removal, depths up to 256). Not a proof for all histories. ' + TRUST)
T_RADIX = ('; TLA+ model of how insertion and removal change the tree (Radix, RadixTest) explored by TLC: always the tree that the contents '
           'determine')
for p, f in [('C01', M.c01), ('C02', M.c02), ('C03', M.c03), ('C05', M.c05), ('C06', M.c06), ('C07', M.c07), ('C08', M.c08), ('C09', M.c09)]:
    add(p, f, 'model_checking', T_MAP + T_RADIX * (p == 'C02'), R_MAP, N_MAP, ['BLAKE2b-256 has no collisions'])

# ------------------------------------------------------- C10 - C15 and C23
T_FAULT = ('TLA+ specification with crash, damage and fault actions (Urkel, Trace); histories from TLC walks (Gen) and hand-made ones '
           'replayed in the library with injected system-call faults, traces checked by TLC')
T_STORE = ('; TLA+ model of the write buffer, files, records and recovery (Store), explored by TLC, whose behaviours are replayed too')
R_STORE = ('; further scripts come from behaviours of spec/Store.tla: one for each of its transitions with 3 attempts and 2 faults, and random ones '
           'with 12 attempts and 5 faults, sampled')
R_FAULT = {
    'C10': 'a history run without faults gives the mutating system calls of each library call; a script kills the process before, after or '
           'in the middle of one of them (any write at several byte offsets), often a second time during recovery; non-trivial: the '
           'process died as planned',
    'C11': 'the newest file of a history is cut at a byte, overwritten from a byte to its end (random bytes, zeros, records of other '
           'databases, look-alikes) or extended, or its last record is repeated with one bit flipped; non-trivial: the file was changed',
    'C12': 'a system call made during a commit fails (several errors), or a write stops part of the way, once or until further notice; '
           'non-trivial: the fault fired',
    'C13': 'a system call made by any library call fails; non-trivial: the fault fired',
    'C14': 'reads and writes are cut short or interrupted, once or all the time; non-trivial: the fault fired',
    'C15': 'histories with a file-size limit of 114..8192 bytes and small limits for open files and buffers; non-trivial: the data fills '
           'more than one file',
    'C23': 'every file falls back to a length between what was synced and what was written, after a call or inside one, in the normal and '
           'in the sync build; non-trivial: a power failure happened',
}
N_FAULT = ('Every fault of the listed kind at every system call of the histories is a candidate; the quick tier samples them. The traces '
           'are judged by the specification, which leaves open only what cannot be known. ' + TRUST)
for p, f in [('C10', F.c10), ('C11', F.c11), ('C12', F.c12), ('C13', F.c13), ('C14', F.c14), ('C15', F.c15), ('C23', F.c23)]:
    add(p, f, 'fault_enumeration' if p != 'C15' else 'exploration',
        T_FAULT + T_STORE * (p in ('C10', 'C12', 'C23')), R_FAULT[p] + R_STORE * (p in ('C10', 'C12', 'C23')), N_FAULT,
        {'C10': ['a killed process loses no completed write (page cache survives)'],
         'C11': ['random garbage does not contain a valid keyed digest'],
         'C23': ['bytes of a file become durable in order; directory entries and truncations are durable at once']}.get(p, []))

NOT_APPLICABLE = [
    {'property': 'C26', 'reason': 'the Windows, Emscripten and WASI sources can be neither built nor run in this sandbox, so no trace of them '
                                  'can be recorded and a specification would stay unbound'},
]

# ---------------------------------------------------------------------- C16
add('C16', P.c16, 'model_checking', 'TLA+ model of the lock protocol (ProcLock) whose transitions become schedules of real processes; their histories are '
    'judged by TLC against a specification of linearizability with one holder (Multi over Urkel)',
    'pairs (every transition of the model, sampled in the quick tier) and triples of programs that create, open, write, read, close, destroy or die, on '
    'no database, on one and on one of several files; also random schedules that stop before any system call, with processes killed there; distinct '
    'histories are counted', 'The model keeps its invariants in every interleaving, with one death. Every recorded history of real processes is one that '
    'the specification allows. ' + TRUST, ['processes interleave at system calls', 'a process opens a database only once at a time (POSIX record locks '
    'do not hold within a process)'])

# ------------------------------------------------------------- C17 - C19
add('C17', T.c17, 'model_checking', 'TLA+ specification of linearizability (Lin over Urkel): histories of real threads under a scheduler of our own, judged by TLC',
    'pairs and triples of thread programs (all database, transaction and iterator calls, private and shared transactions) from twelve states of a '
    'database, under runs without preemption and with chosen or random preemptions at system calls, lock operations and memory accesses; '
    'distinct histories are counted', 'Every history is explained by some order of the calls that respects real time. The schedules are sampled. '
    + TRUST, ['threads interleave at system calls, lock operations and, in part of the runs, memory accesses; weak memory effects are left to C19'])

add('C18', T.c18, 'model_checking', 'TLA+ model of lock operations (Locks) fed with what every call of the real library is recorded to do; TLC explores all '
    'interleavings; real threads run under chosen schedules', 'every thread program, also with failing system calls, is recorded alone; all pairs and many '
    'triples of the distinct lock sequences are explored with and without writers going first; distinct groups are counted',
    'No interleaving of the recorded lock sequences gets stuck; no scheduled run of real threads did. A lock sequence that depends on what another '
    'thread does meanwhile is covered by the scheduled runs only. ' + TRUST)
add('C19', T.c19, 'model_checking', 'TLA+ model of locks and memory accesses (Locks) fed with what pairs of calls of the real library are recorded to do; TLC '
    'explores all interleavings', 'ordered pairs of thread programs from twelve states are recorded, with the memory and descriptors each uses between '
    'lock operations; every interleaving of the distinct reduced pairs is explored',
    'No interleaving of the recorded accesses lets two threads use the same bytes at once, one of them to write. ' + TRUST,
    ['a call that runs after another accesses the memory it would access when running beside it'])

# ---------------------------------------------------- C20, C21, C24 and C25
add('C20', X.c20, 'fault_enumeration', T_FAULT,
    'databases of one or more files are destroyed, with files of others in the folder or not, again and again, while system calls fail or the '
    'process is killed at one of them, and opened again; non-trivial: a fault fired or the process died', N_FAULT)
add('C21', X.c21, 'fault_enumeration', T_FAULT,
    'histories of calls that fail (unknown roots, missing keys, bad proofs, long values) or whose system calls are made to fail, then everything is '
    'closed and the blocks, descriptors and mappings the library holds are counted; non-trivial: a call failed', N_FAULT,
    ['memory is obtained through malloc, calloc, realloc and strdup', 'a mapping that munmap refuses to release is not counted'])
add('C24', X.c24, 'exploration', 'TLC evaluates BLAKE2b as specified (Blake2b.tla) on the inputs recorded from the library (Trace)',
    'every length from 0 to 1099 and lengths around multiples of the block size, random bytes, all zeros, all ones and single bits; each script has '
    'about a dozen inputs', 'The digest of each input is compared with the specification of RFC 7693, which is itself compared with the Java '
    'implementation used for long inputs. ' + TRUST)
add('C25', X.c25, 'model_checking', 'TLA+ specification of lexical normalization (Path.tla, laws checked by TLC); traces of opens and destroys checked by TLC',
    'all texts of up to 6 characters over {a . /} and random longer ones are opened or destroyed with every change refused and recorded; databases are '
    'reached under random spellings of their paths; lengths around the limit',
    'The path that reaches the system names the same folder as the specification says, and databases found under different spellings are the same. ' + TRUST)

add('C22', L.c22, 'exploration', 'TLA+ specification of command lines (Cli over Urkel, Merkle and Path); the real tool is run on scripts of command lines and TLC '
    'judges its status, output and effects', 'scripts of 8 to 25 command lines on two databases and two other folders, reached by option, environment variable '
    'or current folder under random spellings; wrong command lines; databases that somebody else has open; failing system calls; non-trivial: distinct scripts',
    'Every recorded command has the status, the output and the effect that the specification gives it. The command lines are sampled. ' + TRUST)

add('C28', F.c28, 'exploration', T_FAULT, 'histories of small files, of which parts or the whole of some older ones, or the key, are taken away between two '
    'openings, used, and put back; non-trivial: something was taken away', 'The specification says which answers are right; while something is missing a call may '
    'also report it. What was taken away, and the calls, are sampled. ' + TRUST)

add('C27', D.c27, 'model_checking', 'TLA+ specification of the files (Disk.tla): TLC writes images of random histories that the library has to open, and reads the '
    'files the library writes; that reading inverts writing is checked on every image', 'images of up to 12 commits with values of up to 1023 bytes, in one '
    'file or many, at offsets up to 2 GB and file numbers up to 32760; files written by generated histories and by large trees, read after commits and closes; '
    'distinct scripts are counted', 'What the library wrote decodes, by the specification, to exactly the commits of the history; what the specification wrote '
    'the library reads as those commits, extends and reads again. Images and histories are sampled. ' + TRUST)

add('C29', A.c29, 'model_checking', 'TLA+ model of how the tree is changed (Radix, RadixTest), explored by TLC; it tells how much each commit may add, and TLC '
    'compares that with the sizes of the files in traces of the library (Append)',
    'walks and transitions of spec/Gen.tla, all sets of 3-bit keys with insertions and removals, large trees; the files are compared, byte for byte, with what '
    'they were before; distinct scripts are counted', 'In the model the tree is canonical after every history and only nodes next to a changed key are stored again. '
    'The library never added more than the model in the replayed histories. ' + TRUST)
