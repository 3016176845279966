# What decides each property: one line of technique and one note on strength, used in MANIFEST.json.
BASE = 'Exploration of generated programs, configurations and schedules (1-8 processes) of the unmodified library on a strict, hostile MPI-3.1 simulator with ASan/UBSan; '
TECH = {
 '*': 'runtime monitoring under a hostile MPI simulator: generated programs and schedules, ASan/UBSan, online model and MPI-legality monitors',
 'C01': 'runtime monitoring: byte-exact shadow model of all global and private memory checked after every synchronisation, under deferred/reordered/split simulated RMA, with ASan/UBSan',
 'C02': 'runtime monitoring: segment-by-segment reference copy into a shadow model for random stride patterns, compared byte by byte (with guard bytes) under hostile RMA and ASan/UBSan',
 'C03': 'runtime monitoring: segment-by-segment reference copy into a shadow model for random I/O vectors, compared byte by byte under hostile RMA and ASan/UBSan',
 'C04': 'runtime monitoring: sequential accumulate model on exactly representable values, bitwise comparison of destinations, sources and guards',
 'C05': 'runtime monitoring: conservation oracle (initial value plus all logged contributions) over concurrent accumulates, incl. preemption at every instrumented window access',
 'C06': 'runtime monitoring: online linearizability monitor of fetch-and-add/swap histories (fetched value, final value, ticket uniqueness) with preemption at window accesses',
 'C07': 'runtime monitoring: online mutual-exclusion monitor on holder state kept outside the library plus data-visibility check in the critical section, over explored schedules',
 'C08': 'runtime monitoring: deadlock and no-progress detection by the deterministic scheduler, bounded-overtaking monitor over lock request/grant logs',
 'C09': 'runtime monitoring: completion monitor - after fence/allfence/barrier every earlier update must be visible in target memory, with RMA delayed as long as MPI permits',
 'C10': 'runtime monitoring: observers poll the flag and check the data on every observation, under RMA reordered and delayed as far as MPI permits',
 'C11': 'runtime monitoring: completion monitor for handles (source reuse and scribbled destinations until local completion), reference model of handle states',
 'C12': 'runtime monitoring: per-process program-order checker of put/get/accumulate sequences on contended locations under unordered simulated RMA',
 'C13': 'runtime monitoring: disjointness/routing oracle over allocation histories with aliased address spaces, plus shadow-memory model and ASan',
 'C14': 'runtime monitoring: resource census (MPI objects, MPI memory, heap) by the simulator around repeated workload cycles and after finalize',
 'C15': 'runtime monitoring: reference model of group membership, order and translation compared at every member and non-member',
 'C16': 'runtime monitoring: deterministic-scheduler deadlock detection over concurrent collective and noncollective group creations, MPI matching monitor',
 'C17': 'runtime monitoring: shadow-memory model over programs mixing world and group allocations, all operations with absolute ids',
 'C18': 'runtime monitoring: element-wise reference reduction (exact values) with guards, over every operation, type, scope and random group',
 'C19': 'runtime monitoring: reference results for broadcast/selection/tree queries and arrival monitor for message barriers',
 'C20': 'runtime monitoring: exactly-once/in-order/payload monitor over tagged message streams with rendezvous and eager simulated sends',
 'C21': 'runtime monitoring: reference state machine of init/finalize nesting over random subset/permuted communicators and repeated sessions',
 'C22': 'runtime monitoring: negative-testing oracle - each invalid request in its own forked world must be rejected with memory intact, each valid neighbour accepted',
 'C23': 'runtime monitoring: metamorphic oracle (same program, random option sets, identical memory) and reference parser of environment values',
 'C24': 'AddressSanitizer, UndefinedBehaviorSanitizer and pattern-initialised locals over all workloads with boundary shapes',
 'C25': 'ThreadSanitizer on the library with only its own synchronisation visible, plus preemptive deterministic scheduling of threads under the same oracles and ASan',
 'C26': 'runtime monitoring: MPI-legality monitor of every MPI call (epochs, bounds, types, buffers, conflicts, matching, handles) over all workloads and three MPI flavours',
 'C27': 'runtime monitoring: shadow-memory model with global memory as local buffer (aliasing, overlap) under hostile RMA; lock-epoch legality monitor',
 'C28': 'runtime monitoring: brute-force overlap/span decision compared with the library on random segment lists, plus data oracle of transfers',
 'C29': 'runtime monitoring: interposing tool counts every call and compares with the program; profile report compared with driver counts; shadow-memory oracle under the profiler',
 'C30': 'runtime monitoring: coherence monitor of direct loads/stores against remote reads/writes, in the unified and the separate MPI memory model',
 'C31': 'runtime monitoring: reference pack/unpack with guards and round trips under ASan/UBSan',
 'C32': 'runtime monitoring: consistency oracle over identity, domain, node and timer queries at all processes, gathered outside the library',
}
NOTE = {'*': BASE + 'a byte-exact oracle judges every observed result.',
 'C24': BASE + 'sanitizer findings, crashes and aborts in legal programs are violations; uninitialised reads are only seen through pattern-initialised locals and 0xDD/garbage-filled memory, not by MSan.',
 'C25': BASE + 'TSan sees only the library\'s own locks and atomics (the scheduler\'s hand-off is invisible to it), so a race is reported even when the explored schedule did not show its effect.',
 'C26': BASE + 'MPI rules are those the simulator checks (listed in DESIGN.md); Open MPI 4, Open MPI 5 and MPICH compile-time flavours.',
 'C08': BASE + 'fairness is judged as bounded overtaking within finite runs; deadlock is exact for the explored schedules.',
 'C16': BASE + 'deadlock is exact for the explored schedules.',
 'C30': BASE + 'the separate memory model is simulated with distinct public and private window copies.',
}
NA = {}
