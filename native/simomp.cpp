// libsimomp: an OpenMP runtime whose threads are fibers of one OS thread, scheduled by a seeded generator.
//
// The extensions are compiled with -fopenmp -fsanitize=thread and linked against this library instead of libgomp and
// libtsan: the GOMP_* calls create, join and synchronise the logical threads, and the __tsan_* calls, emitted by the
// compiler at every memory access, are the points where the simulator may preempt the running logical thread.
// Which accesses conflict is only used to choose where to preempt: whether something is wrong is decided by the
// oracles, from the results.
#include <assert.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <vector>
#include <map>
#include <string>

#define NOSAN __attribute__((no_sanitize("thread")))
#define MAXT 64
#define STACK (512 * 1024)
#define HOTBITS 16
#define MAXDEC 20000

namespace {
enum State { READY, AT_BARRIER, AT_LOCK, FINISHED };
struct Team;
struct WS { int used = 0; unsigned long long next = 0, end = 0, chunk = 1, iters = 0; long long start = 0, incr = 1;
  int mode = 0; bool ready = false; int taken = 0; void *copy = 0; int left = 0; int ordered_next = 0; };
struct Fiber { void *sp = 0; char *stack = 0; int id = 0; State st = READY; Team *team = 0; unsigned ws = 0;
  WS *cur = 0; long long st_chunk = 0; void *wait = 0; unsigned long bar = 0; };
struct Team { int n = 1; void (*fn)(void *) = 0; void *data = 0; std::vector<Fiber> f; std::map<unsigned, WS> ws; void *main_sp = 0;
  unsigned long bar = 0; int arrived = 0, alive = 0; int gil = 0; Team *up = 0; bool serial = false; bool cancelled = false; };
struct Dec { long acc; int target; int kind; };  // kind 0: preemption, 1: choice when the current thread blocks

Team *team = 0;        // the running team (0 outside of parallel regions)
Fiber *cur = 0;
Fiber serial_fiber;
int cfg_threads = 4, cfg_policy = 0, cfg_shrink = 0; double cfg_p = 0.01; uint64_t rng = 1, rng2 = 1;
long cfg_maxacc = 200000000;
bool enabled = false;
long acc = 0, next_stop = -1;   // accesses so far; the access before which the next preemption happens
long n_regions = 0, n_multi = 0, n_switch = 0, n_preempt = 0, n_conflict = 0, n_barrier = 0;
uint64_t sched_hash = 1469598103934665603ull;
Dec *decs = 0; long n_dec = 0;
bool explicit_mode = false; std::vector<Dec> todo; size_t todo_pos = 0;
int omp_max = 0;
struct Shadow { uintptr_t a; int fiber; int write; long region; int hot; };
Shadow *shadow = 0; int n_shadow = 0;
int (*gil_check)(void) = 0;
std::map<std::string, int> dummy;

uint64_t rnd() { uint64_t z = (rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t rnd2() { uint64_t z = (rng2 += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
double rndf() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
void die(const char *m) { fprintf(stderr, "SIMOMP: %s\n", m); fflush(stderr); _exit(77); }

extern "C" void simomp_swap(void **save, void *load);
asm(R"(
.text
.globl simomp_swap
.type simomp_swap,@function
simomp_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simomp_swap,.-simomp_swap
)");

std::vector<char *> pool;
char *get_stack() { if (!pool.empty()) { char *s = pool.back(); pool.pop_back(); return s; }
  char *s = (char *) mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (s == MAP_FAILED) die("no memory for the stacks"); mprotect(s, 4096, PROT_NONE); return s; }

void plan_next() {
  if (explicit_mode) { next_stop = -1;
    for (size_t i = todo_pos; i < todo.size(); ++i) if (todo[i].kind == 0 && todo[i].acc > acc) { next_stop = todo[i].acc; break; }
    return; }
  if (cfg_policy == 0 || cfg_policy == 4 || cfg_p <= 0) { next_stop = -1; return; }
  // geometric distance with mean 1/p
  double u = rndf(); double d = 1.0 / cfg_p; long k = 1 + (long) (d * 2 * u); next_stop = acc + k;
}
void record(int target, int kind) { if (decs && n_dec < MAXDEC) { decs[n_dec].acc = acc; decs[n_dec].target = target; decs[n_dec].kind = kind; } n_dec++;
  sched_hash = (sched_hash ^ (uint64_t) (acc * 64 + target * 2 + kind)) * 1099511628211ull; }

void go(Fiber *to) {
  Fiber *from = cur; if (to == from) return;
  n_switch++; cur = to;
  simomp_swap(&from->sp, to->sp);
}
long demoted[MAXT]; long n_demoted = 0; uint64_t region_salt = 0;
long prio(Fiber *f) { if (demoted[f->id]) return -demoted[f->id]; uint64_t z = region_salt + f->id * 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; return (long) ((z ^ (z >> 27)) >> 20); }
// choose among the ready fibers (excluding the current one when it is being preempted)
Fiber *choose(int kind) {
  Team *t = team; int cnt = 0; Fiber *cand[MAXT];
  for (int i = 0; i < t->n; ++i) if (t->f[i].st == READY && !(kind == 0 && &t->f[i] == cur)) cand[cnt++] = &t->f[i];
  if (!cnt) return 0;
  if (explicit_mode) {
    for (size_t i = todo_pos; i < todo.size(); ++i) { if (todo[i].acc > acc) break;
      if (todo[i].acc == acc && todo[i].kind == kind) { todo_pos = i + 1;
        for (int k = 0; k < cnt; ++k) if (cand[k]->id == todo[i].target) return cand[k]; break; }
      if (todo[i].acc < acc) todo_pos = i + 1; }
    return kind == 0 ? 0 : cand[0];
  }
  if (cfg_policy == 3) {  // priorities: a thread is stalled until the others are done or blocked
    Fiber *b = cand[0]; for (int k = 1; k < cnt; ++k) if (prio(cand[k]) > prio(b)) b = cand[k];
    return b; }
  return cnt == 1 || cfg_policy == 4 ? cand[0] : cand[rnd() % cnt];
}
void block() {  // the current fiber cannot continue: run another one
  Fiber *to = choose(1);
  if (!to) die("deadlock: every thread of the parallel region is blocked");
  record(to->id, 1); go(to);
}
bool may_switch() { return team && !team->serial && team->n > 1 && !(gil_check && !team->gil && gil_check()); }
void preempt() {
  if (!may_switch()) return;
  if (cfg_policy == 3 && !explicit_mode) demoted[cur->id] = ++n_demoted;
  Fiber *to = choose(0); if (!to) return;
  n_preempt++; record(to->id, 0); plan_next(); go(to);
}
bool guard = false;
inline void access(void *addr, int sz, int write) {
  (void) sz;
  if (__builtin_expect(!team || !enabled, 1)) return;
  if (team->serial || team->n < 2 || guard) return;
  guard = true;
  ++acc;
  if (acc > cfg_maxacc) die("endless: too many memory accesses in parallel regions");
  uintptr_t a = (uintptr_t) addr; bool stop = acc == next_stop; Shadow *s = 0;
  // exact match on the address: which accesses conflict must not depend on where the memory was allocated
  if (!explicit_mode) { unsigned h = (unsigned) ((a * 0x9E3779B97F4A7C15ull) >> (64 - HOTBITS));
    for (;; h = (h + 1) & ((1u << HOTBITS) - 1)) { s = &shadow[h]; if (s->region != n_regions) {
        if (n_shadow >= (1 << (HOTBITS - 1))) { s = 0; break; }
        n_shadow++; s->a = a; s->region = n_regions; s->fiber = cur->id; s->write = 0; s->hot = 0; break; }
      if (s->a == a) break; }
    if (s) { if (s->fiber != cur->id && (s->write || write)) { n_conflict++; s->hot = 1; } s->fiber = cur->id; s->write |= write;
      if (!stop && cfg_policy == 2 && s->hot && (rnd() & 3) == 0) stop = true; } }
  if (stop) { guard = false; if (explicit_mode) { preempt(); plan_next(); } else { preempt(); if (acc == next_stop) plan_next(); } }
  guard = false;
}
void sync_point() {  // synchronisation calls are always interesting
  if (!team || !enabled || team->n < 2 || team->serial) return;
  ++acc; if (explicit_mode) { if (acc == next_stop) { preempt(); plan_next(); } return; }
  if ((cfg_policy == 1 || cfg_policy == 2) && (rnd() & 3) == 0) preempt(); else if (acc == next_stop) plan_next();
}

extern "C" void simomp_main(void);
void finish() {
  Fiber *me = cur; me->st = FINISHED; team->alive--;
  // whoever waits at the barrier may now be complete
  if (team->alive == 0) { Team *t = team; void *dummy_sp; cur = 0; simomp_swap(&dummy_sp, t->main_sp); }
  else { if (team->arrived && team->arrived == team->alive) { /* the others wait for a thread that left: let them go */
      team->arrived = 0; team->bar++; for (auto &f : team->f) if (f.st == AT_BARRIER) f.st = READY; }
    Fiber *to = choose(1); if (!to) die("deadlock: every thread of the parallel region is blocked");
    record(to->id, 1); cur = to; void *dummy_sp; n_switch++; simomp_swap(&dummy_sp, to->sp); }
  die("a finished thread was resumed");
}
extern "C" void simomp_main(void) { Fiber *me = cur; me->team->fn(me->team->data); finish(); }

void barrier() {
  if (!team || team->n < 2) return;
  n_barrier++; Team *t = team;
  if (t->arrived + 1 >= t->alive) { t->arrived = 0; t->bar++; for (auto &f : t->f) if (f.st == AT_BARRIER) f.st = READY; sync_point(); return; }
  t->arrived++; cur->st = AT_BARRIER; block();
}

// The threads of the pool of a thread do not survive a fork: in the forked process its next parallel region would wait
// for them forever, unless they were released before the fork (omp_pause_resource_all). As in the GNU runtime.
thread_local pid_t pool_pid = 0;
void need_pool() { pid_t p = getpid(); if (!pool_pid) pool_pid = p; else if (pool_pid != p) die("deadlock: the threads of the parallel region did not survive the fork"); }

void run_team(void (*fn)(void *), void *data, int n) {
  n_regions++; n_shadow = 0;
  Team t; t.fn = fn; t.data = data; t.n = n; t.up = team; t.alive = n;
  Fiber *saved = cur; Team *saved_team = team;
  if (team || n <= 1 || !enabled) {  // nested or serial: a team of one
    t.n = 1; t.serial = true; t.f.resize(1); t.f[0].team = &t; Fiber *f = &t.f[0];
    // a nested region keeps running on the fiber it was met by
    if (saved) { Fiber nf; nf.team = &t; Team *old = saved->team; unsigned ows = saved->ws; WS *oc = saved->cur; int oid = saved->id;
      // the identity of the thread inside of the nested team is 0
      saved->ws = 0; team = &t; t.f[0] = *saved; Fiber *oldcur = cur; cur = f; f->id = 0; f->team = &t; f->ws = 0;
      fn(data); cur = oldcur; team = saved_team; saved->team = old; saved->ws = ows; saved->cur = oc; saved->id = oid; return; }
    team = &t; cur = f; fn(data); team = 0; cur = 0; return;
  }
  n_multi++; need_pool();
  memset(demoted, 0, sizeof demoted); n_demoted = 0; region_salt = cfg_policy == 3 ? rnd() : 0;
  t.gil = gil_check ? gil_check() : 0;
  t.f.resize(n);
  for (int i = 0; i < n; ++i) { Fiber &f = t.f[i]; f.id = i; f.team = &t; f.stack = get_stack();
    uintptr_t top = ((uintptr_t) f.stack + STACK) & ~(uintptr_t) 15; uint64_t *sp = (uint64_t *) top;
    *--sp = 0; *--sp = (uint64_t) &simomp_main; for (int k = 0; k < 6; ++k) *--sp = 0;
    uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    *--sp = (uint64_t) mx | ((uint64_t) cw << 32); f.sp = sp; }
  team = &t; plan_next();
  Fiber *first = choose(1); record(first->id, 1); cur = first;
  simomp_swap(&t.main_sp, first->sp);
  for (int i = 0; i < n; ++i) pool.push_back(t.f[i].stack);
  team = saved_team; cur = saved;
}
int team_size(unsigned want) {
  int n = want ? (int) want : (omp_max ? omp_max : cfg_threads);
  if (cfg_shrink && n > 1 && rnd2() % 3 == 0) n = 1 + rnd2() % n;  // the implementation may give fewer threads
  if (n > MAXT) n = MAXT; return n < 1 ? 1 : n;
}
Fiber *me() { return cur ? cur : &serial_fiber; }
Team *my_team() { return team; }

// --- work sharing -----------------------------------------------------------------------------------------------
WS *enter_ws(bool &first) { Fiber *f = me(); Team *t = my_team(); static WS lone;
  if (!t) { lone = WS(); f->cur = &lone; first = true; return &lone; }
  WS &w = t->ws[f->ws++]; first = !w.ready; f->cur = &w; f->st_chunk = 0; return &w; }
void init_loop(WS *w, long long start, long long end, long long incr, long long chunk, int mode) {
  w->ready = true; w->start = start; w->incr = incr; w->mode = mode; w->next = 0;
  if (incr > 0) w->iters = end > start ? ((unsigned long long) end - start + incr - 1) / incr : 0;
  else w->iters = start > end ? ((unsigned long long) start - end - incr - 1) / -incr : 0;
  int n = my_team() ? my_team()->n : 1;
  if (chunk <= 0) chunk = mode == 0 ? (long long) ((w->iters + n - 1) / n) : 1;
  if (chunk < 1) chunk = 1; w->chunk = chunk; }
bool next_chunk(WS *w, long long *s, long long *e) {
  Fiber *f = me(); int n = my_team() ? my_team()->n : 1; unsigned long long b, len;
  sync_point();
  if (w->mode == 0) { b = (unsigned long long) (f->st_chunk * n + f->id) * w->chunk; f->st_chunk++; len = w->chunk; }
  else { len = w->chunk; if (w->mode == 2) { unsigned long long left = w->iters > w->next ? w->iters - w->next : 0;
      unsigned long long g = left / n; if (g > len) len = g; } b = w->next; w->next += len; }
  if (b >= w->iters) return false;
  if (len > w->iters - b) len = w->iters - b;
  *s = w->start + (long long) b * w->incr; *e = w->start + (long long) (b + len) * w->incr; return true;
}
bool loop_start(long long start, long long end, long long incr, long long chunk, int mode, long long *s, long long *e) {
  bool first; WS *w = enter_ws(first); if (first) init_loop(w, start, end, incr, chunk, mode); return next_chunk(w, s, e); }

// --- locks -------------------------------------------------------------------------------------------------------
struct Lock { Fiber *owner; int held; int depth; };
Lock critical, atomic_lock; std::map<void *, Lock> named;
void acquire(Lock *l) { if (!team || team->n < 2) { l->held = 1; l->owner = me(); return; }
  sync_point(); while (l->held) { cur->st = AT_LOCK; cur->wait = l; block(); } l->held = 1; l->owner = cur; }
void release(Lock *l) { l->held = 0; l->owner = 0; if (team) { for (auto &f : team->f) if (f.st == AT_LOCK && f.wait == l) { f.st = READY; f.wait = 0; } sync_point(); } }
}  // namespace

extern "C" {
// --- control, called through ctypes ----------------------------------------------------------------------------
void simomp_config(int threads, int policy, double p, int shrink, uint64_t seed) {
  if (!shadow) { shadow = (Shadow *) calloc(1 << HOTBITS, sizeof(Shadow));
    decs = (Dec *) malloc(MAXDEC * sizeof(Dec)); gil_check = (int (*)(void)) dlsym(RTLD_DEFAULT, "PyGILState_Check"); }
  memset(shadow, 0, sizeof(Shadow) << HOTBITS);
  cfg_threads = threads; cfg_policy = policy; cfg_p = p; cfg_shrink = shrink; rng = seed; rng2 = seed ^ 0x5DEECE66D1234567ull; enabled = true; omp_max = 0;
  acc = 0; next_stop = -1; n_regions = n_multi = n_switch = n_preempt = n_conflict = n_barrier = 0; n_dec = 0;
  sched_hash = 1469598103934665603ull; explicit_mode = false; todo.clear(); todo_pos = 0; }
void simomp_disable(void) { enabled = false; }
void simomp_enable(void) { enabled = true; }
void simomp_maxacc(long n) { cfg_maxacc = n; }
void simomp_explicit(long n, const long *a) { explicit_mode = true; todo.clear(); todo_pos = 0;
  for (long i = 0; i < n; ++i) { Dec d; d.acc = a[3 * i]; d.target = (int) a[3 * i + 1]; d.kind = (int) a[3 * i + 2]; todo.push_back(d); } }
void simomp_stats(long *o, uint64_t *h) { o[0] = n_regions; o[1] = n_multi; o[2] = n_switch; o[3] = n_preempt; o[4] = n_conflict;
  o[5] = n_barrier; o[6] = acc; o[7] = n_dec; *h = sched_hash; }
long simomp_decisions(long *o, long max) { long n = n_dec < MAXDEC ? n_dec : MAXDEC; if (n > max) n = max;
  for (long i = 0; i < n; ++i) { o[3 * i] = decs[i].acc; o[3 * i + 1] = decs[i].target; o[3 * i + 2] = decs[i].kind; } return n_dec; }

// --- OpenMP ------------------------------------------------------------------------------------------------------
int omp_get_thread_num(void) { return cur ? cur->id : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return omp_max ? omp_max : cfg_threads; }
int omp_get_num_procs(void) { return cfg_threads; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return team && team->n > 1; }
void omp_set_num_threads(int n) { omp_max = n > 0 ? n : 0; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
void omp_set_schedule(int, int) {} void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_get_max_active_levels(void) { return 1; } void omp_set_max_active_levels(int) {}
int omp_get_level(void) { int l = 0; for (Team *t = team; t; t = t->up) l++; return l; }
int omp_get_active_level(void) { return team && team->n > 1; }
int omp_pause_resource(int, int) { if (team) return -1; pool_pid = 0; return 0; } int omp_pause_resource_all(int k) { return omp_pause_resource(k, 0); }
int omp_get_cancellation(void) { return 0; }
double omp_get_wtime(void) { return acc * 1e-9; } double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void **l) { *l = calloc(1, sizeof(Lock)); } void omp_destroy_lock(void **l) { free(*l); *l = 0; }
void omp_set_lock(void **l) { acquire((Lock *) *l); } void omp_unset_lock(void **l) { release((Lock *) *l); }
int omp_test_lock(void **l) { Lock *k = (Lock *) *l; if (k->held) return 0; acquire(k); return 1; }
void omp_init_nest_lock(void **l) { *l = calloc(1, sizeof(Lock)); } void omp_destroy_nest_lock(void **l) { free(*l); *l = 0; }
void omp_set_nest_lock(void **l) { Lock *k = (Lock *) *l; if (k->held && k->owner == me()) { k->depth++; return; } acquire(k); k->depth = 1; }
void omp_unset_nest_lock(void **l) { Lock *k = (Lock *) *l; if (--k->depth == 0) release(k); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, team_size(n)); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { int k = team_size(n); run_team(fn, data, k); return k; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { acquire(&critical); } void GOMP_critical_end(void) { release(&critical); }
void GOMP_critical_name_start(void **p) { acquire(&named[p]); } void GOMP_critical_name_end(void **p) { release(&named[p]); }
void GOMP_atomic_start(void) { acquire(&atomic_lock); } void GOMP_atomic_end(void) { release(&atomic_lock); }
bool GOMP_single_start(void) { bool first; WS *w = enter_ws(first); sync_point(); if (!w->taken) { w->taken = 1; w->ready = true; return true; } return false; }
void *GOMP_single_copy_start(void) { bool first; WS *w = enter_ws(first); sync_point(); if (!w->taken) { w->taken = 1; w->ready = true; return 0; }
  barrier(); return w->copy; }
void GOMP_single_copy_end(void *d) { me()->cur->copy = d; barrier(); }
bool GOMP_master(void) { return omp_get_thread_num() == 0; }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}

#define LOOP(name, mode) \
bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { long long x, y; if (!loop_start(a, b, i, c, mode, &x, &y)) return false; *s = x; *e = y; return true; } \
bool GOMP_loop_##name##_next(long *s, long *e) { long long x, y; if (!next_chunk(me()->cur, &x, &y)) return false; *s = x; *e = y; return true; } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long *s, unsigned long long *e) { (void) up; long long x, y; \
  if (!loop_start(a, b, i, c, mode, &x, &y)) return false; *s = x; *e = y; return true; } \
bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) { long long x, y; if (!next_chunk(me()->cur, &x, &y)) return false; *s = x; *e = y; return true; } \
struct PL_##name { void (*fn)(void *); void *data; long a, b, i, c; }; \
static void pl_##name(void *p) { PL_##name *q = (PL_##name *) p; (void) q; q->fn(q->data); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
// the combined parallel loops: the first work sharing construct of the team is initialised before it starts
struct Pre { void (*fn)(void *); void *data; long a, b, i, c; int mode; };
static void pre_main(void *p) { Pre *q = (Pre *) p; Fiber *f = me(); Team *t = my_team();
  if (t) { WS &w = t->ws[f->ws++]; if (!w.ready) init_loop(&w, q->a, q->b, q->i, q->c, q->mode); f->cur = &w; f->st_chunk = 0; }
  q->fn(q->data); }
#define PLOOP(name, mode) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned) { \
  Pre q = {fn, data, a, b, i, c, mode}; run_team(pre_main, &q, team_size(n)); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned) { \
  Pre q = {fn, data, a, b, i, 1, 1}; run_team(pre_main, &q, team_size(n)); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); } void GOMP_loop_end_nowait(void) {} bool GOMP_loop_end_cancel(void) { barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { bool first; WS *w = enter_ws(first); if (first) { w->ready = true; w->iters = n; w->next = 0; w->mode = 3; }
  sync_point(); return w->next < w->iters ? (unsigned) ++w->next : 0; }
unsigned GOMP_sections_next(void) { sync_point(); WS *w = me()->cur; return w->next < w->iters ? (unsigned) ++w->next : 0; }
void GOMP_sections_end(void) { barrier(); } void GOMP_sections_end_nowait(void) {}
static void sec_main(void *p) { Pre *q = (Pre *) p; Fiber *f = me(); Team *t = my_team();
  if (t) { WS &w = t->ws[f->ws++]; if (!w.ready) { w.ready = true; w.iters = q->a; w.mode = 3; } f->cur = &w; } q->fn(q->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) { Pre q = {fn, data, (long) count, 0, 0, 0, 3};
  run_team(sec_main, &q, team_size(n)); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  sync_point(); if (cpy) { char *b = (char *) alloca(size + align); char *a = (char *) (((uintptr_t) b + align - 1) & ~(uintptr_t) (align - 1)); cpy(a, data); fn(a); } else fn(data); }
void GOMP_taskwait(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {} void GOMP_taskyield(void) { sync_point(); }

// --- memory accesses ---------------------------------------------------------------------------------------------
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, 0); } void __tsan_write##n(void *a) { access(a, n, 1); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, 0); } void __tsan_unaligned_write##n(void *a) { access(a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, 0); } void __tsan_volatile_write##n(void *a) { access(a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, 0); } void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, 1); } \
  void __tsan_read_write##n(void *a) { access(a, n, 1); } void __tsan_unaligned_read_write##n(void *a) { access(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, (int) n, 0); } void __tsan_write_range(void *a, unsigned long n) { access(a, (int) n, 1); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int) { access((void *) a, b / 8, 0); return *a; } \
void __tsan_atomic##b##_store(volatile T *a, T v, int) { access((void *) a, b / 8, 1); *a = v; } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { access((void *) a, b / 8, 1); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *) a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *) a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *) a, b / 8, 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
}
