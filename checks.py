"""Which simulated world and profiles decide which property."""

WRAP_A = ['clock_gettime', 'gettimeofday', 'time', 'nanosleep', 'malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', '__assert_fail', 'dnstable_merge_func']
WRAP_B = ('''stat lstat fstat fstatat access faccessat fopen popen pclose open close fdopen read realpath mkdir mkdirat opendir readdir
          rewinddir closedir dirfd fdopendir rename renameat link unlink remove unlinkat clock_gettime gettimeofday time usleep sleep
          nanosleep clock_nanosleep pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy
          __assert_fail my_crc32c_sse42_supported my_crc32c_sse42''').split()
SAN = ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w']
LM = ['-std=gnu99', '-fsanitize=address']
CLK = ['-DHAVE_CLOCK_GETTIME=1', '-DHAVE_CLOCK_NANOSLEEP=1']
DEFS = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_ENDIAN_H=1']

PURE = ('crc32c', 'crc32c-slicing', 'crc32c-sse42', 'b32_decode', 'b32_encode', 'b64_decode', 'b64_encode')

WORLDS = {
    'a': {
        'flags': SAN + DEFS + ['-I@/sim/include', '-I@REPO', '-I@REPO/dnstable'],
        'sources': [
            {'cc': 'gcc', 'flags': ['-std=gnu99'], 'files': ['@REPO/dnstable/*.c']},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-include', 'stdbool.h'], 'files': ['@REPO/libmy/*.c', '!@REPO/libmy/*test*.c', '!@REPO/libmy/crc32c*.c'], 'archive': True, 'optional': True},
            {'cc': 'g++', 'flags': ['-std=c++17', '-I@/sim'], 'files': ['@/sim/a/*.cc']},
        ],
        'link': ['-fsanitize=address'] + ['-Wl,--wrap=' + w for w in WRAP_A],
    },
    'c': {
        'flags': SAN + DEFS + ['-I@/sim/include', '-I@REPO', '-I@REPO/dnstable', '-DMERGE_SCRIPT="@REPO/src/dnstable_merge.sh.in"'],
        'sources': [
            {'cc': 'gcc', 'flags': ['-std=gnu99'], 'files': ['@REPO/dnstable/*.c']},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-Dmain=lookup_main'], 'files': ['@REPO/src/dnstable_lookup.c']},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-Dmain=dump_main'], 'files': ['@REPO/src/dnstable_dump.c']},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-include', 'stdbool.h'], 'files': ['@REPO/libmy/*.c', '!@REPO/libmy/*test*.c', '!@REPO/libmy/crc32c*.c'], 'archive': True, 'optional': True},
            {'cc': 'g++', 'flags': ['-std=c++17', '-I@/sim'], 'files': ['@/sim/a/*.cc', '!@/sim/a/main.cc', '@/sim/c/*.cc']},
        ],
        'link': ['-fsanitize=address', '-rdynamic'] + ['-Wl,--wrap=' + w for w in WRAP_A + ['dnstable_iter_get_count', 'dnstable_iter_next', 'dnstable_reader_query']] + ['-ldl'],
    },
    'b': {
        'flags': ['-g', '-O1', '-fno-omit-frame-pointer', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-I@REPO', '-I@REPO/libmy'],
        'sources': [
            {'cc': 'gcc', 'flags': LM + CLK, 'files': ['@REPO/libmy/%s.c' % f for f in ('my_fileset', 'spooldir', 'my_rate', 'zonefile')]},
            {'cc': 'gcc', 'flags': LM + ['-Dmy_rate_%s=portable_rate_%s' % (f, f) for f in ('init', 'destroy', 'sleep')], 'files': ['@REPO/libmy/my_rate.c']},
            {'cc': 'gcc', 'flags': LM + CLK, 'files': ['@/sim/b/shim.c']},
            # the queues and the thread numbers: every memory access is a scheduling point
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0', '-include', '@/sim/b/simbarrier.h'] + CLK,
             'files': ['@REPO/libmy/%s.c' % f for f in ('my_queue', 'my_queue_mutex', 'threadnum')]},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0', '-include', 'stdbool.h', '-include', '@/sim/b/simbarrier.h'] + CLK,
             'files': ['@REPO/libmy/%s.c' % f for f in PURE]},
            {'cc': 'gcc', 'flags': ['-std=gnu99', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0', '-include', '@/sim/b/simbarrier.h', '-I@/sim/b'] + CLK,
             'files': ['@/sim/b/atoms.c']},
            # whatever else these come to use
            {'cc': 'gcc', 'flags': LM + CLK + ['-include', 'stdbool.h'], 'files': ['@REPO/libmy/*.c', '!@REPO/libmy/*test*.c', '!@REPO/libmy/crc32c*.c']
             + ['!@REPO/libmy/%s.c' % f for f in ('my_fileset', 'spooldir', 'my_rate', 'zonefile', 'my_queue', 'my_queue_mutex', 'threadnum') + PURE], 'archive': True, 'optional': True},
            {'cc': 'g++', 'flags': ['-std=c++17', '-fsanitize=address', '-I@/sim'], 'files': ['@/sim/b/*.cc']},
        ],
        'link': ['-fsanitize=address'] + ['-Wl,--wrap=' + w for w in WRAP_B] + ['-lldns', '-lpthread', '-lm'],
    },
}

REAL_A = ['dnstable/*.c (query, query_mtbl, entry, iter, merge, reader, triplet, util)', 'libmy headers and my_format.c they use']
STUB_A = ['libmtbl: in-memory sorted tables, mergers and filesets with the libmtbl interface (sim/a/mtbl_sim.cc)',
          'libwdns: strict wire-name and rdata text routines (sim/a/wdns_sim.cc)', 'clocks, heap accounting and assertion exit (sim/a/wraps.cc)']
ASSUME_A = ['the stub libmtbl and libwdns behave as their documented interfaces do', 'data sets are built by the encoder in sim/a/model.cc, which follows dnstable-encoding(5)',
            'search is sampling: a quiet run is evidence, not proof']
RULE_A = ('One run = one seeded plan: generated data files (names, types, rdata, times, legacy files), set files, storage faults and latency, then an '
          'interleaving of query opens, steps, reloads, merges and closes; it is non-trivial if at least one row came back and was compared with the reference model. ')


def A(profiles, extra='', rule=''):
    return dict(sweeps=[('a', p, q, t) for p, q, t in profiles], real=REAL_A, stub=STUB_A, assumptions=ASSUME_A + ([extra] if extra else []), rule=RULE_A + rule)


def C(prog, profiles):
    merge = '.sh' in prog
    return dict(sweeps=[('c', p, q, t) for p, q, t in profiles], real=(['src/%s run by /bin/sh' % prog] if merge else ['src/%s.c' % prog, 'libmy/argv.c']) + REAL_A,
                stub=STUB_A + (['mtbl_merge: a stand-in that records its arguments and environment, fails or is killed; the merge itself runs over simulated storage'] if merge else []), assumptions=ASSUME_A + ['the JSON and text readers in sim/c/cli.cc read the output as a user does'],
                rule=RULE_A + 'Each command runs as a process of its own over the simulated storage and clock; what it prints is read back and compared with the model.')


STUB_B = ['file system, directories, stdio streams, pipes (in memory: sim/b/vfs.cc)', 'clocks, sleeps and timers', 'pthread mutexes and the thread scheduler (one thread runs at a time, sim/b/sched.cc)',
          'heap accounting, assertion exit']
ASSUME_B = ['the simulated system calls behave as POSIX describes them', 'search is sampling: a quiet run is evidence, not proof']


def B(real, profiles, rule, extra=(), stub=STUB_B):
    return dict(sweeps=[('b', p, q, t) for p, q, t in profiles], real=real, stub=stub, assumptions=ASSUME_B + list(extra), rule=rule)


FILESET_RULE = ('One run = one seeded history: processes rewrite the set file (atomically or in place, torn, with duplicates, comments, relative and missing names), '
                'create, replace and remove the data files, system calls fail, user callbacks refuse; reloads are interleaved at every system call.')
SPOOL_RULE = ('One run = one seeded history of writer and several reader processes on one spool directory, scheduled at every system call, with crashes, restarts and failing calls.')

CHECKS = {
    'C01': A([('agg', 12000, 400000)]),
    'C02': A([('merge', 14000, 300000)], rule='Merger processes run the real merge function in random grouping and order, and crash part way.'),
    'C03': A([('unagg', 14000, 400000)]),
    'C04': A([('fence', 16000, 400000)]),
    'C05': A([('limit', 10000, 300000)], rule='Storage stalls, time limits and clock jumps are drawn per run; limits are changed between steps.'),
    'C06': A([('offset', 14000, 400000)]),
    'C07': A([('reload', 10000, 300000)]),
    'C08': A([('corrupt', 14000, 400000)], rule='Data files hold truncated, malformed and foreign entries and damaged index values.'),
    'C09': A([('abandon', 14000, 300000)]),
    'C10': A([('stats', 12000, 300000)]),
    'C11': C('dnstable_lookup', [('lookup', 3000, 120000)]),
    'C15': C('dnstable_dump', [('dump', 3000, 120000)]),
    'C12': A([('scan', 6000, 200000)]),
    'C13': A([('ip', 14000, 400000)]),
    'C14': A([('index', 14000, 300000)]),
    'C16': A([('params', 14000, 300000)], rule='Setters are called in every order, with values that must be refused and values that are cleared again, before and between runs of the same query.'),
    'C17': C('dnstable_merge.sh.in', [('mergecmd', 4000, 250000)]),
    'C18': B(['libmy/b64_encode.c', 'libmy/b64_decode.c', 'libmy/b32_encode.c', 'libmy/b32_decode.c'], [('codec', 14000, 600000)],
             'One run = a fresh process in which up to three threads encode and decode random data, cut into random pieces, interleaved at every memory access.'),
    'C19': B(['libmy/crc32c.c', 'libmy/crc32c-slicing.c', 'libmy/crc32c-sse42.c'], [('crc', 16000, 600000)],
             'One run = a fresh process on a processor with or without SSE 4.2 in which up to four threads compute checksums, interleaved at every memory access, before or after detection.',
             ['the instruction set is what my_crc32c_sse42_supported reports; the real instructions run on the host']),
    'C20': B(['libmy/my_fileset.c'], [('fileset', 50000, 1500000)], FILESET_RULE),
    'C21': B(['libmy/my_fileset.c'], [('fileset', 50000, 1500000)], FILESET_RULE),
    'C22': B(['libmy/spooldir.c'], [('spool', 24000, 800000)], SPOOL_RULE),
    'C23': B(['libmy/spooldir.c'], [('spool', 24000, 800000)], SPOOL_RULE),
    'C24': B(['libmy/my_queue.c', 'libmy/my_queue_mutex.c'], [('queue', 24000, 800000)],
             'One run = one seeded interleaving of a producer and a consumer thread at every memory access, under sequential consistency or with store buffers (TSO, PSO, weak: delayed loads of copies).',
             ['the store-buffer model stands for the memory models of real processors']),
    'C25': B(['libmy/atomic.h', 'libmy/atomic_64.h', 'libmy/atomic_ptr.h'], [('atoms', 50000, 1500000)],
             'One run = one seeded interleaving, at every memory access, of up to four threads operating on one counter or pointer; the history is explained by brute force or reported.'),
    'C26': B(['libmy/my_rate.c (built twice: clock_nanosleep and portable)', 'libmy/my_time.h'], [('rate', 14000, 400000)],
             'One run = one seeded history of events of a caller that works, dawdles or keeps pace, under oversleeping timers and signals.'),
    'C27': B(['libmy/read_bytes.h', 'libmy/my_time.h'], [('io', 150000, 3000000)], 'One run = seeded sequence of reads and sleeps under short reads, EINTR, EAGAIN, errors and early ends of file.'),
    'C28': B(['libmy/zonefile.c', 'libldns (system library)'], [('zone', 60000, 1000000)], 'One run = one generated zone file, read in chunks, truncated, damaged, failing or empty, plain or through a pipe.'),
    'C29': B(['libmy/threadnum.c'], [('thnum', 60000, 1500000)], 'One run = one seeded interleaving of threads that ask for their number at every memory access.'),
}
