"""Writes notes.json: the technique and the note of every check."""
import json, os
T = 'deterministic simulation with fault injection: '
io = T + 'libc I/O behind an LD_PRELOAD seam, seeded faults at numbered operations, '
N = {
 'C01': (io + 'generated data as oracle', 'reads, allocations, archives, streams; bit-exact or an exception, then a healthy reload'),
 'C02': (io + 'kills and torn writes, independent parser as oracle', 'writes, flushes, closes, kills; returned means complete'),
 'C03': (io + 'interrupts at any line, table of open descriptors as oracle', 'every operation on files, successful, failing or interrupted'),
 'C04': (io + 'generated trees as oracle', 'six formats, faults, truncated XML, replaced files'),
 'C05': (io + 'kills and interrupts, generated trees as oracle', 'saves that fail, are interrupted or killed at any operation'),
 'C06': (io + 'independent rendering as oracle', 'every destination under faults and interrupts'),
 'C07': (T + 'simulated HTTP server and disk, kills at any system call, histories of fetches against a model of what was published', 'safety after every fault and recovery within one call'),
 'C08': (T + 'simulated HTTP server and disk, requests and folder compared with what was asked', 'all local states by arguments, with faults'),
 'C09': (T + 'several processes interleaved at every system call by the seed, some killed', 'two to four processes, every survivor complete'),
 'C10': (T + 'simulated OpenMP runtime preempting at memory accesses, float64 reference', '1-64 threads, exact equality on dyadic values'),
 'C11': (T + 'simulated OpenMP runtime preempting at memory accesses, float64 reference', '1-64 threads, leaves and contributions exact'),
 'C12': (T + 'simulated OpenMP runtime preempting at memory accesses, counts of the generated trees', '1-64 threads'),
 'C13': (T + 'simulated OpenMP runtime preempting at memory accesses, sequential reference', 'squared error only; rounding bound relative to the terms'),
 'C14': (T + 'histories of calls with interrupts and failing allocations at any instruction, float64 reference', 'one or two models, look-alike and replaced datasets'),
 'C15': (T + 'Python threads preempted at any instruction by the seed, float64 reference', 'two to four threads, deadlocks detected'),
 'C16': (T + 'histories of evaluations with interrupts and failures, fresh metric in a fresh process as reference', 'all the metrics, look-alike and replaced datasets'),
 'C17': (T + 'Python threads preempted at any instruction by the seed, fresh metric in a fresh process as reference', 'two to four threads'),
 'C18': (T + 'histories of analyses with interrupts and failing allocations, values recomputed from the generated trees', 'seven analyses, warm and cold caches'),
 'C19': (T + 'histories over families of copies with interrupts, reference of the generated trees', 'up to sixteen operations'),
 'C20': (T + 'random generators behind a seam (chosen and adversarial draws), interrupts, partition as oracle', 'all kinds of random_state'),
 'C21': (T + 'random generators behind a seam, interleaved and concurrent generations, partition as oracle', 'up to four generations'),
 'C22': (T + 'recorded or chosen draws replayed in rational arithmetic', 'exact through np.random.choice, otherwise within 6.5 sigma of the exact distribution'),
 'C23': (T + 'recording learners, chosen draws, interrupts; decomposition recomputed', 'every row identified in every call of the learner'),
 'C27': (T + 'histories of derivations and comparisons with interrupts, failing allocations and threads, arrays selected by the harness as oracle', 'families of up to sixteen datasets'),
 'C28': (T + 'Python threads preempted at any instruction of the library and of their streams, I/O faults and defective files, generated data as oracle', 'two to four threads, files not shared; native code is preempted only where it calls a stream'),
 'C29': (T + 'operations repeated with the same fault (interrupts, allocations, I/O, streams, defective input) at the same place; weak references, counters of the allocators and the state of the process as oracle', 'twelve repetitions, up to 200 when memory grows; the error paths of NumPy itself left out'),
 'C30': (T + 'signals at any instruction, failing streams, callbacks, allocations and system calls; the exception raised as oracle, by identity', 'one failure in most runs; exceptions in __hash__ and the like, with which pandas has its ways, left out'),
 'C31': (T + 'the operation repeated in drawn surroundings (locale, contents of memory, collector, threads, settings, folder, earlier and failed operations, short and interrupted I/O), compared bit by bit', 'locales built with localedef; feature importance not over OpenMP schedules (C13)'),
 'C32': (T + 'operations run within others at any instruction, stream operation or callback, each compared bit by bit with itself alone', 'one thread; the inner ones put back the state of the global generators'),
 'C33': (T + 'objects pickled at any instruction and received under another hash seed, processes forked from any thread and killed, each operation compared bit by bit with itself alone', 'pickles and forks; one thread in a forked process'),
 'C25': (T + 'histories of figures with figures of the user, interrupts and failing allocations, the results drawn as oracle', 'generated results; geometry only as far as it identifies a value'),
 'C26': (T + 'histories and threads sharing a metric, interrupts and failures at any instruction, recomputation split by split', 'metrics other than the squared error; rounding-sensitive histories skipped'),
}
V = os.path.dirname(os.path.abspath(__file__))
json.dump({k: {'technique': t, 'note': 'Seeded search, not proof: ' + n + '.'} for k, (t, n) in N.items()}, open(os.path.join(V, 'notes.json'), 'w'), indent=1)
