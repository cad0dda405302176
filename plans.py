"""What each property's check builds and runs."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'

PLANS = {}
NOT_APPLICABLE = {}
HOOKS = dict(guard='HOGL_VERIF', enable='-DHOGL_VERIF=1', source_commits=['4fdb77df46d74c091a4656a1884a149c7f9c1063'])


def H(name):
    return os.path.join(HERE, 'h', name)


# target name -> (sources, needs library, extra cflags, ldflags)
TARGETS = {}


def target(t):
    name, variant = t
    if name.endswith('_i'):      # harness that also interposes the pthread functions
        srcs, lib, extra, ld = TARGETS.get(name[:-2], ([H(name[:-2] + '.cc')], True, [], []))
        return (name, variant, srcs, lib, extra + ['-DVH_INTERPOSE'], ld)
    if name in TARGETS:
        srcs, lib, extra, ld = TARGETS[name]
    else:
        srcs, lib, extra, ld = [H(name + '.cc')], True, [], []
    return (name, variant, srcs, lib, extra, ld)


def J(t, args, **kw):
    return dict(t=t, args=args, **kw)


def prop(pid, targets, jobs, **kw):
    PLANS[pid] = dict(targets=targets, jobs=jobs, **kw)


def q(tier, a, b):
    return a if tier == 'quick' else b


# ------------------------------------------------------------------
prop('L01', [('l01', 'plain'), ('l01_i', 'plain'), ('l01', 'asan')],
     lambda tier, seed: [J(('l01', 'plain'), [seed * 1000 + i, q(tier, 12, 250), q(tier, 12000, 40000)]) for i in range(q(tier, 4, 8))] +
                        [J(('l01', 'asan'), [seed * 1000 + 50 + i, q(tier, 8, 150), q(tier, 3000, 8000)]) for i in range(q(tier, 2, 4))] +
                        [J(('l01_i', 'plain'), [seed * 1000 + 80 + i, q(tier, 60, 2000), 0]) for i in range(2)] +
                        [J(('l01', 'plain'), [seed, 0, 0])],
     parallel=dict(quick=3, thorough=4),
     technique='delivery monitor: posted/accepted log vs captured record stream, stress + ASan',
     note='Held on the executed schedules and configurations: every accepted record was compared with the delivered one. Trusts the capture model in h/cap.hpp.')

prop('L02', [('l02', 'plain'), ('l02', 'asan')],
     lambda tier, seed: [J(('l02', 'plain'), [seed * 1000 + i, q(tier, 150, 2500), q(tier, 30, 300), q(tier, 20000, 60000)]) for i in range(q(tier, 4, 6))] +
                        [J(('l02', 'asan'), [seed * 1000 + 50, q(tier, 80, 1000), q(tier, 10, 80), q(tier, 5000, 20000)])],
     parallel=dict(quick=3, thorough=4),
     technique='exact ring model against a stalled engine, gap/mark matching under overload, ASan',
     note='Held on the executed post/stall patterns; every acceptance, mark and counter compared with the model. Marks are only claimed with timestamp ordering on.')

prop('L03', [('l03_i', 'plain'), ('l03', 'tsan')],
     lambda tier, seed: [J(('l03_i', 'plain'), [seed * 1000 + i, q(tier, 30, 600), q(tier, 3000, 10000), q(tier, 20, 300)]) for i in range(q(tier, 5, 8))] +
                        [J(('l03', 'tsan'), [seed * 1000 + 50, q(tier, 8, 100), q(tier, 800, 2000), q(tier, 8, 80)])],
     parallel=dict(quick=3, thorough=4),
     technique='progress and exactly-once monitor on tiny blocking rings under injected delays at mutexes, conditions and barriers; TSan',
     note='Held on the executed schedules. A writer counts as stuck when nothing moves for 25 s while the engine runs, confirmed by the same run.')

prop('L04', [('l04_i', 'plain'), ('l04', 'tsan')],
     lambda tier, seed: [J(('l04_i', 'plain'), [seed * 1000 + i, q(tier, 20, 400), q(tier, 2500, 8000)]) for i in range(q(tier, 4, 6))] +
                        [J(('l04', 'tsan'), [seed * 1000 + 50 + i, q(tier, 6, 60), q(tier, 500, 1500)]) for i in range(q(tier, 1, 2))],
     parallel=dict(quick=3, thorough=3),
     technique='conservation, order, tearing and batch-contiguity checker over the delivered log; injected delays; TSan on fence-aware ring indexes',
     note='Held on the executed schedules.')

prop('L05', [('l05_i', 'plain'), ('l05', 'asan')],
     lambda tier, seed: [J(('l05_i', 'plain'), [seed * 1000 + i, q(tier, 200, 4000), q(tier, 15, 300), q(tier, 15000, 40000)]) for i in range(q(tier, 4, 6))] +
                        [J(('l05', 'asan'), [seed * 1000 + 50, q(tier, 100, 1500), q(tier, 4, 60), q(tier, 4000, 10000)])],
     parallel=dict(quick=3, thorough=3),
     technique='order checker: sortedness of stalled batches, real-time precedence of free-running posts, overflow-mark position',
     note='Held on the executed schedules. Cross-ring order is claimed for rings already known to the engine and a buffer of at least eight times what can be pending.')

prop('L06', [('l06_i', 'plain'), ('l06', 'asan')],
     lambda tier, seed: [J(('l06_i', 'plain'), [seed * 1000 + i, q(tier, 60, 1500), q(tier, 15, 300), q(tier, 800, 3000)]) for i in range(q(tier, 4, 6))] +
                        [J(('l06', 'asan'), [seed * 1000 + 50 + i, q(tier, 40, 800), q(tier, 10, 150), q(tier, 300, 1000)]) for i in range(q(tier, 2, 2))],
     parallel=dict(quick=3, thorough=4),
     technique='model-based registry histories with exact reference counts, concurrent owner-exclusion monitors, ASan/LSan',
     note='Held on the executed histories and schedules.')

prop('L07', [('l07_i', 'plain'), ('l07', 'asan')],
     lambda tier, seed: [J(('l07_i', 'plain'), [seed * 1000 + i, q(tier, 20, 300), q(tier, 60, 200), q(tier, 20, 300), q(tier, 40, 800)]) for i in range(q(tier, 4, 6))] +
                        [J(('l07', 'asan'), [seed * 1000 + 50 + i, q(tier, 8, 100), q(tier, 40, 150), q(tier, 8, 100), q(tier, 20, 300)]) for i in range(q(tier, 2, 2))],
     parallel=dict(quick=3, thorough=4),
     technique='conservation monitor over thread churn and ring pick-up races with injected delays; ASan/LSan for the memory side',
     note='Held on the executed schedules.')

prop('L08', [('l08_i', 'plain'), ('l08', 'asan')],
     lambda tier, seed: [J(('l08_i', 'plain'), [seed * 1000 + i, q(tier, 60, 1500)]) for i in range(q(tier, 6, 8))] +
                        [J(('l08', 'asan'), [seed * 1000 + 50 + i, q(tier, 40, 600)]) for i in range(q(tier, 3, 4))],
     parallel=dict(quick=9, thorough=8),
     technique='conservation at the moment destruction returns, on records and on flushed bytes; ASan/LSan for what must be freed',
     note='Held on the executed schedules.')

prop('L09', [('l09_i', 'plain'), ('l09', 'asan')],
     lambda tier, seed: [J(('l09_i', 'plain'), [seed * 1000 + i, q(tier, 25, 500), q(tier, 1500, 4000), q(tier, 30, 500)]) for i in range(q(tier, 5, 8))] +
                        [J(('l09', 'asan'), [seed * 1000 + 50 + i, q(tier, 10, 150), q(tier, 600, 1500), q(tier, 10, 150)]) for i in range(q(tier, 1, 2))],
     parallel=dict(quick=6, thorough=8),
     technique='written-out monitor at the destination compared with completed posts when flush returns; stalled-engine timeouts',
     note='Held on the executed schedules. "Written out" is observed below the output buffer: an own buffer class, or the file read back.')

prop('L10', [('l10_i', 'plain'), ('l10', 'asan')],
     lambda tier, seed: [J(('l10_i', 'plain'), [seed * 1000 + i, q(tier, 20, 400), q(tier, 120, 390), q(tier, 10, 200)]) for i in range(q(tier, 5, 8))] +
                        [J(('l10', 'asan'), [seed * 1000 + 50 + i, q(tier, 6, 100), q(tier, 60, 200), q(tier, 5, 80)]) for i in range(q(tier, 1, 2))],
     parallel=dict(quick=6, thorough=8),
     technique='stamps that identify their timesource, checked against request/ack intervals; announcement and count conservation',
     note='Held on the executed schedules. Changes with timeout 0 (return at once) are not claimed.')

prop('A01', [('a01', 'plain'), ('a01', 'asan')],
     lambda tier, seed: [J(('a01', 'plain'), [seed * 1000 + i, q(tier, 8000, 100000)]) for i in range(q(tier, 3, 6))] +
                        [J(('a01', 'asan'), [seed * 1000 + 50, q(tier, 250, 4000)])],
     parallel=dict(quick=4, thorough=7),
     technique='differential monitor of mask application against an independent regular-expression matcher; ASan/LSan/UBSan',
     note='Held on the generated masks, areas and ways of building them. Expressions are generated from the common POSIX extended syntax.')

prop('A02', [('a02_i', 'plain'), ('a02', 'asan')],
     lambda tier, seed: [J(('a02_i', 'plain'), [seed * 1000 + i, q(tier, 300, 8000), q(tier, 300, 8000)]) for i in range(q(tier, 4, 6))] +
                        [J(('a02', 'asan'), [seed * 1000 + 50, q(tier, 60, 1000), q(tier, 30, 600)])],
     parallel=dict(quick=5, thorough=7),
     technique='model-based area registry histories; final-state oracle for mask changes racing with area additions under injected delays; ASan/LSan',
     note='Held on the executed histories and schedules.')

TARGETS['a03'] = ([H('a03.cc'), H('a03c.c')], True, [], [])
prop('A03', [('a03', 'plain'), ('a03', 'asan')],
     lambda tier, seed: [J(('a03', 'plain'), [seed * 1000 + i, q(tier, 250, 6000)]) for i in range(q(tier, 4, 6))] +
                        [J(('a03', 'asan'), [seed * 1000 + 50, q(tier, 60, 1000)])],
     parallel=dict(quick=5, thorough=7),
     technique='per-post monitor of ring, timesource and output against a model of section states; ASan/UBSan',
     note='Held on the executed histories. Section states are changed by one thread at a time; areas have up to 4096 sections, what a record can name.')

prop('F01', [('f01', 'plain'), ('f01', 'asan')],
     lambda tier, seed: [J(('f01', 'plain'), [seed * 1000 + i, q(tier, 800, 20000)]) for i in range(q(tier, 3, 6))] +
                        [J(('f01', 'asan'), [seed * 1000 + 50 + i, q(tier, 200, 4000)]) for i in range(2)],
     parallel=dict(quick=5, thorough=8),
     technique='capture model compared with every delivered argument, buffers overwritten right after the post, neighbours pending; ASan/UBSan on the record buffer',
     note='Held on the generated calls: native C++ argument types through the posting templates and generated argument lists with sizes at the edges of the room.')

prop('F02', [('f02', 'plain'), ('f02', 'asan')],
     lambda tier, seed: [J(('f02', 'plain'), [seed * 1000 + i, q(tier, 1200, 20000)]) for i in range(q(tier, 4, 6))] +
                        [J(('f02', 'asan'), [seed * 1000 + 50 + i, q(tier, 60, 1000)]) for i in range(2)] +
                        [J(('f02', 'plain'), [seed, 0])],
     parallel=dict(quick=6, thorough=8),
     technique='differential monitor: every formatted record against libc printf and an independent plain rendering; malformed formats under ASan/UBSan',
     note='Held on the generated formats and arguments except the listed known findings, which are probed with fixed inputs.')

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX-5:45', 'YYY11:30']
prop('F03', [('f03', 'plain'), ('f03', 'asan')],
     lambda tier, seed: [J(('f03', 'plain'), [seed * 1000 + i, q(tier, 2500, 40000), q(tier, 400, 1000)], env=dict(VH_TZ=ZONES[i % 5])) for i in range(q(tier, 5, 10))] +
                        [J(('f03', 'asan'), [seed * 1000 + 50, q(tier, 40, 600), 200], env=dict(VH_TZ=ZONES[seed % 5]))],
     parallel=dict(quick=6, thorough=8),
     technique='differential monitor: every header against a stateless model, hostile timestamp histories, several zones; ASan/UBSan',
     note='Held on the generated field selections, names and timestamp histories.')

prop('F04', [('f04', 'plain'), ('f04', 'asan')],
     lambda tier, seed: [J(('f04', 'plain'), [seed * 1000 + i, q(tier, 250, 8000)]) for i in range(q(tier, 4, 6))] +
                        [J(('f04', 'asan'), [seed * 1000 + 50 + i, q(tier, 30, 600)]) for i in range(2)],
     parallel=dict(quick=6, thorough=8),
     technique='differential monitor against an independent dump renderer; records copied to exact-size heap blocks under ASan/UBSan',
     note='Held on the generated dumps.')

COOK = [REPO + '/tools/' + x for x in ('cook.cc', 'raw-parser.cc', 'rdbuf.cc')]
TARGETS['cook'] = (COOK, True, [], ['-ldl'])
TARGETS['plugin'] = ([H('plugin.cc')], False, ['-fPIC'], ['-shared'])
prop('F05', [('f05', 'plain'), ('cook', 'plain'), ('cook', 'asan'), ('plugin', 'plain')],
     lambda tier, seed: [J(('f05', 'plain'), [seed * 1000 + i, q(tier, 700, 10000), q(tier, 10, 100), q(tier, 150, 2500)], tools=['cook', 'plugin']) for i in range(q(tier, 3, 6))] +
                        [J(('f05', 'plain'), [seed * 1000 + 50 + i, q(tier, 120, 1000), 0], tools=['cook'], toolvar='asan') for i in range(2)],
     parallel=dict(quick=5, thorough=8),
     technique='round-trip monitor: direct text against the output of the real hogl-cook for the same records, files, pipes with random chunks and followed files; ASan/UBSan in the tool',
     note='Held on the generated records. Addresses printed for raw data are not compared; names are the printable ones of 2 to 128 characters that hogl-cook accepts.')

TARGETS['f06'] = ([H('f06.cc')] + COOK, True, ['-Dmain=cook_main'], ['-ldl'])
TARGETS['f06z'] = ([H('f06z.cc')] + COOK[1:], True, [], [])
prop('F06', [('f06', 'plain'), ('f06', 'asan'), ('f06z', 'fuzz')],
     lambda tier, seed: [J(('f06', 'plain'), [seed * 1000 + i, q(tier, 5, 200), 400]) for i in range(q(tier, 4, 4))] +
                        [J(('f06', 'asan'), [seed * 1000 + 50 + i, q(tier, 3, 30), q(tier, 120, 100)]) for i in range(q(tier, 3, 4))] +
                        [J(('f06z', 'fuzz'), ['-seed=%d' % (seed * 1000 + 90 + i), '-runs=%d' % q(tier, 100000, 1500000), '-max_len=3000', '-timeout=200', '-rss_limit_mb=6000', '-verbosity=0']) for i in range(q(tier, 1, 4))],
     parallel=dict(quick=7, thorough=8),
     technique='salvage monitor: output of hogl-cook on damaged streams against the text of the records before the damage; ASan/UBSan in the tool, termination watch',
     note='Held on the generated damages. Long garbage is not claimed to end quickly: the search for valid records restarts at each offset.')

TARGETS['recover'] = ([REPO + '/tools/' + x for x in ('recover.cc', 'recovery-engine.cc', 'coredump.cc')], True, [], ['-lbfd'])
TARGETS['f07'] = ([H('f07.cc')], True, [], ['-no-pie'])
prop('F07', [('f07', 'plain'), ('recover', 'plain'), ('recover', 'asan'), ('plugin', 'plain'), ('plugin', 'asan')],
     lambda tier, seed: [J(('f07', 'plain'), [seed * 1000 + i, q(tier, 120, 1000), q(tier, 40, 400)], tools=['recover', 'plugin']) for i in range(q(tier, 4, 6))] +
                        [J(('f07', 'plain'), [seed * 1000 + 50 + i, q(tier, 20, 200), q(tier, 5, 40)], tools=['recover', 'plugin'], toolvar='asan') for i in range(2)],
     parallel=dict(quick=6, thorough=8),
     technique='post-crash monitor: real core dumps of processes killed at rest and while posting, output of the real hogl-recover compared with what had been posted and delivered; ASan/UBSan in the tool',
     note='Held on the crashes made. Cores are those of a non-PIE executable on x86-64; records carry no flush or timesource requests.')

prop('O01', [('o01', 'plain'), ('o01', 'asan')],
     lambda tier, seed: [J(('o01', 'plain'), [seed * 1000 + i, q(tier, 2500, 40000), 60]) for i in range(q(tier, 4, 6))] +
                        [J(('o01', 'asan'), [seed * 1000 + 50 + i, q(tier, 400, 8000), 60]) for i in range(2)],
     parallel=dict(quick=6, thorough=8),
     technique='byte-stream monitor: trees of buffers over files, pipes, stdio streams and tees; bytes held and passed on compared after every operation; ASan/UBSan on the buffers',
     note='Held on the generated operation sequences; capacities 0 to 64 KiB.')

prop('O02', [('o02', 'plain'), ('o02', 'asan')],
     lambda tier, seed: [J(('o02', 'plain'), [seed * 1000 + i, q(tier, 600, 9000), q(tier, 250, 3000), q(tier, 250, 3000)]) for i in range(q(tier, 5, 7))] +
                        [J(('o02', 'asan'), [seed * 1000 + 50 + i, q(tier, 200, 3000), q(tier, 80, 600), q(tier, 80, 900)]) for i in range(2)],
     parallel=dict(quick=7, thorough=8),
     technique='fault-injection monitor: interposed short, interrupted and failing writes, real signals against slow readers, closed pipes, full devices and size limits; destination bytes compared; ASan/UBSan',
     note='Held on the executed fault sequences. SIGPIPE and SIGXFSZ are ignored, as an application has to. Interruptions of a stream that stdio buffers may fail it.')

prop('O03', [('o03', 'plain'), ('o03', 'asan')],
     lambda tier, seed: [J(('o03', 'plain'), [seed * 1000 + i, q(tier, 500, 8000)]) for i in range(q(tier, 5, 7))] +
                        [J(('o03', 'asan'), [seed * 1000 + 50 + i, q(tier, 200, 3000)]) for i in range(2)],
     parallel=dict(quick=7, thorough=8),
     technique='file monitor: every chunk in creation order compared with the record stream, name, header, footer, size and link rules, with failing opens, name switches, direct writes and restarts; ASan/UBSan',
     note='Held on the executed histories; chunk creation is seen by interposing open. A limit of one chunk truncates itself by design and is left out.')

prop('O04', [('o04', 'plain'), ('o04', 'asan')],
     lambda tier, seed: [J(('o04', 'plain'), [seed * 1000 + i, q(tier, 100, 2000)]) for i in range(q(tier, 5, 7))] +
                        [J(('o04', 'asan'), [seed * 1000 + 50 + i, q(tier, 40, 600)]) for i in range(2)],
     parallel=dict(quick=7, thorough=8),
     technique='stream monitor: trees of outputs and tees fed by one engine, every destination compared with the text a twin format produced for the same records; ASan/UBSan',
     note='Held on the executed histories. A tee formats records once, with the format of its first output.')

prop('S01', [('s01', 'tsan'), ('s01', 'asan')],
     lambda tier, seed: [J(('s01', 'tsan'), [seed * 1000 + i, q(tier, 30, 300), q(tier, 60, 200)]) for i in range(q(tier, 3, 4))] +
                        [J(('s01', 'asan'), [seed * 1000 + 50 + i, q(tier, 50, 800), q(tier, 100, 300)]) for i in range(q(tier, 3, 4))],
     parallel=dict(quick=6, thorough=8),
     technique='ThreadSanitizer (taught the fence-based publication of the rings), AddressSanitizer, LeakSanitizer and UBSan over worlds of threads that use the whole API at once, with injected delays',
     note='Held on the executed schedules. Volatile flags and counters are not race-checked.')

prop('S02', [('s02', 'plain')],
     lambda tier, seed: [J(('s02', 'plain'), [seed * 1000 + i, q(tier, 400, 6000), 300, q(tier, 40, 600)]) for i in range(q(tier, 6, 8))],
     parallel=dict(quick=6, thorough=8),
     technique='every post watched from below: single-stepped through the trap flag, system calls trapped by syscall user dispatch, allocations, locks and waits interposed; engine absent, running and stalled',
     note='Held on the executed posts; instruction bound 6000 plus 40 per byte of data.')

for n, o in (('s03s', '{16,0,hogl::ringbuf::SHARED|hogl::ringbuf::IMMORTAL,0}'), ('s03b', '{64,3,hogl::ringbuf::SHARED|hogl::ringbuf::IMMORTAL|hogl::ringbuf::BLOCKING,500}'),
             ('s03x', '{64,0,hogl::ringbuf::SHARED,80}'), ('s03y', '{64,0,hogl::ringbuf::IMMORTAL,80}')):
    TARGETS[n] = ([H('s03.cc')], True, ['-DVH_RING_OPTS=' + o], [])
prop('S03', [('s03', 'plain'), ('s03_i', 'plain'), ('s03s', 'plain'), ('s03b', 'plain'), ('s03x', 'plain'), ('s03y', 'plain'), ('s03', 'asan'), ('s03s', 'tsan')],
     lambda tier, seed: [J(('s03', 'plain'), [seed * 1000 + i, q(tier, 500, 5000)]) for i in range(q(tier, 2, 3))] + [J(('s03_i', 'plain'), [seed * 1000 + 10, q(tier, 300, 4000)])] +
                        [J((t, 'plain'), [seed * 1000 + 20, q(tier, 500, 5000)]) for t in ('s03s', 's03b', 's03x', 's03y')] +
                        [J(('s03', 'asan'), [seed * 1000 + 50 + i, q(tier, 150, 2000)]) for i in range(q(tier, 1, 2))] +
                        [J(('s03s', 'tsan'), [seed * 1000 + 70, q(tier, 80, 800)])],
     parallel=dict(quick=6, thorough=8),
     technique='model of activations and scope stacks: threads walk random nests of scopes through default and second engines, every delivered record matched with the ring the model says; injected delays; ASan/LSan, TSan',
     note='Held on the executed histories. Scopes end in the reverse order of their creation, before their engine is stopped.')

prop('S04', [('s04', 'plain'), ('s04', 'asan')],
     lambda tier, seed: [J(('s04', 'plain'), [seed * 1000 + i, q(tier, 60000, 2000000), q(tier, 100, 1000)]) for i in range(q(tier, 3, 4))] +
                        [J(('s04', 'asan'), [seed * 1000 + 50 + i, q(tier, 10000, 300000), q(tier, 60, 800)]) for i in range(q(tier, 3, 4))],
     parallel=dict(quick=6, thorough=8),
     technique='interposed pthread_setaffinity_np, sched_setaffinity and pthread_setschedparam record (or refuse) every request; oracle parses the string independently; ASan/UBSan on valid, damaged and random strings',
     note='Held on the executed strings. Strings the documentation leaves open (signs, leading blanks, trailing comma) are only checked for consistency of validation and application.')


prop('S06', [('s06_i', 'plain'), ('s06', 'asan'), ('s06', 'tsan')],
     lambda tier, seed: [J(('s06_i', 'plain'), [seed * 1000 + i, q(tier, 1000, 20000), 200, q(tier, 30, 400), q(tier, 8000, 20000)]) for i in range(q(tier, 4, 6))] +
                        [J(('s06', 'asan'), [seed * 1000 + 50 + i, q(tier, 80, 2500), 200, q(tier, 4, 60), q(tier, 3000, 8000)]) for i in range(q(tier, 1, 2))] +
                        [J(('s06', 'tsan'), [seed * 1000 + 70 + i, q(tier, 20, 400), 100, q(tier, 6, 80), q(tier, 1500, 5000)]) for i in range(q(tier, 1, 2))],
     parallel=dict(quick=6, thorough=8),
     technique='reference model of a bounded queue compared with the ring after every operation; conservation and order monitor with concurrent writers and an injected-delay scheduler; ASan/UBSan and TSan',
     note='Held on the executed histories and schedules.')

TARGETS['s05'] = ([H('s05.cc'), H('s05c.c'), H('s05x.cc'), H('s05m.cc')], True, [], [])
prop('S05', [('s05_i', 'plain'), ('s05', 'asan')],
     lambda tier, seed: [J(('s05_i', 'plain'), [seed * 1000 + i, q(tier, 12000, 400000), q(tier, 120, 6000), q(tier, 4, 100)]) for i in range(q(tier, 4, 5))] +
                        [J(('s05', 'asan'), [seed * 1000 + 50 + i, q(tier, 2500, 60000), q(tier, 40, 1500), q(tier, 2, 30)]) for i in range(q(tier, 3, 3))],
     parallel=dict(quick=7, thorough=8),
     technique='runtime monitoring, differential: the same statement compiled as C, as C++ and as the C macro in C++ must produce identical records and text; the same random sequence of API calls made through C and through C++ must leave identical observations (area state, options, rings, files, modes, write sizes, rotation, scheduling requests); ASan/UBSan/LSan',
     note='Held on the executed statements and worlds. Arguments: fundamental types, data pointers and strings; 1 to 16 of them. Side effects in the arguments of a disabled post differ by design (the C macro does not evaluate them).')

TARGETS['t01'] = ([H('t01.py')], False, [], [])
prop('T01', [('t01', 'py'), ('t01gen', 'plain')],
     lambda tier, seed: [J(('t01', 'py'), [seed * 1000 + i, q(tier, 120, 2500)], tools=['t01gen'], toolvar='plain') for i in range(q(tier, 6, 8))],
     parallel=dict(quick=6, thorough=8),
     technique='differential monitor: the real hogl-grep on logs written by the library, its output compared with the lines grep selects and deltas computed in integers',
     note='Held on the generated logs and options. One-line records with a timespec timestamp; -n, -c and other options that change what grep prints are out.')

TARGETS['t02'] = ([H('t02.py')], False, [], [])
prop('T02', [('t02', 'py'), ('t01gen', 'plain')],
     lambda tier, seed: [J(('t02', 'py'), [seed * 1000 + i, q(tier, 120, 2500)], tools=['t01gen'], toolvar='plain') for i in range(q(tier, 6, 8))],
     parallel=dict(quick=6, thorough=8),
     technique='model monitor: the real hogl-trace on logs written by the library, its JSON parsed and every event compared with the one the record was made from',
     note='Held on the generated logs. Header layouts are the three the tool supports; names hold no blanks and no #.')

prop('S07', [('s07', 'plain'), ('s07', 'tspec'), ('s07', 'asan')],
     lambda tier, seed: [J(('s07', v), [seed * 1000 + i, q(tier, 300000, 20000000), q(tier, 150, 3000)]) for v in ('plain', 'tspec') for i in range(2)] +
                        [J(('s07', 'asan'), [seed * 1000 + 50, q(tier, 60000, 3000000), q(tier, 40, 600)])],
     parallel=dict(quick=5, thorough=6),
     technique='oracle in 128-bit integers compared with every conversion, comparison and operation on generated values; order and header text of batches put through an engine; both representations; UBSan',
     note='Held on the executed values, within the range of the representation (64 bit nanoseconds, 32 bit seconds).')


prop('L11', [('l11_i', 'plain'), ('l11', 'asan')],
     lambda tier, seed: [J(('l11_i', 'plain'), [seed * 1000 + i, q(tier, 60, 1500), q(tier, 15, 400), q(tier, 300, 600)]) for i in range(q(tier, 4, 5))] +
                        [J(('l11', 'asan'), [seed * 1000 + 50 + i, q(tier, 25, 400), q(tier, 5, 80), q(tier, 150, 400)]) for i in range(q(tier, 2, 3))],
     parallel=dict(quick=6, thorough=8),
     technique='state monitor: dumps and lists of random engines compared item by item with rings, areas, mask, options and counters, at rest and while rings and areas come and go with injected delays; reference counts before and after; ASan/UBSan/LSan',
     note='Held on the executed histories. Dumps are read by key and value; masks do not change while a dump is under way (get_mask() hands out a reference).')

prop('L12', [('l12_i', 'plain'), ('l12', 'asan')],
     lambda tier, seed: [J(('l12_i', 'plain'), [seed * 1000 + i, q(tier, 25, 700), q(tier, 60, 120), q(tier, 120, 4000)]) for i in range(q(tier, 3, 4))] +
                        [J(('l12', 'asan'), [seed * 1000 + 50 + i, q(tier, 8, 150), q(tier, 30, 60), q(tier, 40, 800)]) for i in range(q(tier, 1, 2))],
     parallel=dict(quick=4, thorough=6),
     technique='counting monitor: records of never-idle rings (refilled from within formatting and by threads) output between a post to a quiet ring and its delivery, against the slots of the rings; order of service of the rings in passes that start from a stalled engine, against their priorities; injected delays',
     note='Held on the executed schedules. The bound is four times the slots of the busy rings, counted in records, not in time.')
