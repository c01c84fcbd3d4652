// A stand-in for libgomp used by the monitors.
//
// GCC lowers "#pragma omp parallel" to GOMP_parallel(fn, data, nthreads, flags).
// This shim runs the team itself, so that
//   * the number of threads is chosen by the monitor (any number, any host),
//   * the schedule is chosen by the monitor: truly concurrent threads with
//     randomised start delays, or one thread at a time in a chosen order (from
//     one barrier to the next; every order of the team is a legal schedule),
//   * ThreadSanitizer sees the fork/join edges (it does not know libgomp's).
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>

static thread_local int tl_id = 0;
static thread_local int tl_n = 1;
struct Team;
static thread_local Team *tl_team = nullptr;
static thread_local unsigned tl_ws = 0; // work-sharing constructs met so far

// monitor-controlled state
static int g_threads = 1;
static int g_mode = 0; // 0 concurrent, 1 sequential in order g_order
static int g_jitter = 0; // microseconds
static unsigned g_seed = 1;
static std::vector<int> g_order;
static std::atomic<long> g_regions{0}, g_bodies{0};

#pragma GCC visibility push(default)
extern "C" {

void gprmon_set_threads(int n) { g_threads = n < 1 ? 1 : n; }
void gprmon_set_mode(int m) { g_mode = m; }
void gprmon_set_jitter(int us) { g_jitter = us; }
void gprmon_set_seed(unsigned s) { g_seed = s; }
void gprmon_set_order(const int *o, int n) { g_order.assign(o, o + n); }
long gprmon_regions() { return g_regions; }
long gprmon_bodies() { return g_bodies; }

}
#pragma GCC visibility pop

// one work-sharing construct of a team
struct Work {
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool taken = false;
  void *copy = nullptr;
};

struct Team {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int n;
  int waiting = 0, done = 0;
  unsigned gen = 0;
  bool seq;               // one at a time
  std::vector<int> order; // in this order
  int turn = 0;           // position in order
  std::vector<char> over; // bodies that have ended
  std::map<unsigned, Work> work;
};

// the next body that may run, or the end of the phase (under the lock)
static void pass(Team *t) {
  while (t->turn < t->n && t->over[t->order[t->turn]])
    t->turn++;
}

static void phase(Team *t) { // everyone alive has arrived (under the lock)
  t->waiting = 0;
  t->gen++;
  t->turn = 0;
  pass(t);
  pthread_cond_broadcast(&t->c);
}

static void barrier(Team *t) {
  if (!t || t->n == 1)
    return;
  pthread_mutex_lock(&t->m);
  unsigned g = t->gen;
  if (++t->waiting + t->done == t->n)
    phase(t);
  else if (t->seq) {
    t->turn++;
    pass(t);
    pthread_cond_broadcast(&t->c);
  }
  while (g == t->gen ||
         (t->seq && t->turn < t->n && t->order[t->turn] != tl_id))
    pthread_cond_wait(&t->c, &t->m);
  pthread_mutex_unlock(&t->m);
}

struct Job {
  void (*fn)(void *);
  void *data;
  int id, n;
  unsigned delay;
  Team *t;
};

static void *body(void *p) {
  Job *j = (Job *)p;
  if (j->delay)
    usleep(j->delay);
  int oi = tl_id, on = tl_n;
  Team *ot = tl_team;
  unsigned ow = tl_ws;
  tl_id = j->id;
  tl_n = j->n;
  tl_team = j->t;
  tl_ws = 0;
  g_bodies++;
  if (j->t->seq) {
    pthread_mutex_lock(&j->t->m);
    while (j->t->order[j->t->turn] != tl_id)
      pthread_cond_wait(&j->t->c, &j->t->m);
    pthread_mutex_unlock(&j->t->m);
  }
  j->fn(j->data);
  if (j->n > 1) {
    Team *t = j->t;
    pthread_mutex_lock(&t->m);
    t->over[tl_id] = 1;
    t->done++;
    if (t->waiting && t->waiting + t->done == t->n)
      phase(t);
    else if (t->seq) {
      pass(t);
      pthread_cond_broadcast(&t->c);
    }
    pthread_mutex_unlock(&t->m);
  }
  tl_id = oi;
  tl_n = on;
  tl_team = ot;
  tl_ws = ow;
  return nullptr;
}

static void parallel(void (*fn)(void *), void *data, unsigned nthreads,
                     const Work *w = nullptr) {
  g_regions++;
  int n = nthreads ? (int)nthreads : g_threads;
  if (tl_n > 1)
    n = 1; // nested regions are serialised, as by default in libgomp
  Team team;
  team.n = n;
  team.seq = n > 1 && g_mode == 1;
  team.over.assign(n, 0);
  std::vector<char> seen(n, 0);
  for (int o : g_order)
    if (o >= 0 && o < n && !seen[o]) {
      seen[o] = 1;
      team.order.push_back(o);
    }
  for (int i = 0; i < n; i++)
    if (!seen[i])
      team.order.push_back(i);
  if (w)
    team.work[0] = *w;
  std::vector<Job> jobs(n);
  for (int i = 0; i < n; i++) {
    g_seed = g_seed * 1664525u + 1013904223u;
    unsigned d = g_jitter ? (g_seed >> 8) % (unsigned)g_jitter : 0;
    jobs[i] = Job{fn, data, i, n, n > 1 && !team.seq ? d : 0, &team};
  }
  if (n == 1) {
    body(&jobs[0]);
    return;
  }
  std::vector<pthread_t> th(n);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 64ul << 20);
  for (int i = 1; i < n; i++)
    if (pthread_create(&th[i], &at, body, &jobs[i]))
      abort();
  body(&jobs[0]);
  for (int i = 1; i < n; i++)
    pthread_join(th[i], nullptr);
  pthread_attr_destroy(&at);
}

static Team *solo() { // outside of any region
  static thread_local Team t;
  t.n = 1;
  t.seq = false;
  return &t;
}

static Team *team() { return tl_team ? tl_team : solo(); }

// the construct that this thread has reached
static Work *enter(const Work &w) {
  Team *t = team();
  if (!tl_team)
    t->work.clear();
  pthread_mutex_lock(&t->m);
  Work *r = &t->work.emplace(tl_ws++, w).first->second;
  pthread_mutex_unlock(&t->m);
  return r;
}

static thread_local Work *tl_cur = nullptr;

static bool grab(long *a, long *b) {
  Team *t = team();
  Work *w = tl_cur;
  pthread_mutex_lock(&t->m);
  bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if (more) {
    *a = w->next;
    long e = w->next + w->chunk * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end)
      e = w->end;
    *b = w->next = e;
  }
  pthread_mutex_unlock(&t->m);
  return more;
}

static Work loop(long s, long e, long i, long c) {
  Work w;
  w.next = s;
  w.end = e;
  w.incr = i;
  w.chunk = c > 0 ? c : 1;
  return w;
}

static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;

#pragma GCC visibility push(default)
extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  parallel(fn, data, n);
}

#define LOOPS(kind)                                                           \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a,      \
                                long *b) {                                    \
    tl_cur = enter(loop(s, e, i, c));                                         \
    return grab(a, b);                                                        \
  }                                                                           \
  bool GOMP_loop_##kind##_next(long *a, long *b) {                            \
    if (!tl_cur)                                                              \
      tl_cur = enter(Work()); /* of a combined construct */                   \
    return grab(a, b);                                                        \
  }                                                                           \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n,     \
                                 long s, long e, long i, long c, unsigned) {  \
    Work w = loop(s, e, i, c);                                                \
    parallel(fn, d, n, &w);                                                   \
  }
#define RUNTIME(kind)                                                         \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) {   \
    tl_cur = enter(loop(s, e, i, 1));                                         \
    return grab(a, b);                                                        \
  }                                                                           \
  bool GOMP_loop_##kind##_next(long *a, long *b) {                            \
    if (!tl_cur)                                                              \
      tl_cur = enter(Work());                                                 \
    return grab(a, b);                                                        \
  }                                                                           \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n,     \
                                 long s, long e, long i, unsigned) {          \
    Work w = loop(s, e, i, 1);                                                \
    parallel(fn, d, n, &w);                                                   \
  }
LOOPS(static)
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
RUNTIME(runtime)
RUNTIME(nonmonotonic_runtime)
RUNTIME(maybe_nonmonotonic_runtime)

void GOMP_loop_end() {
  tl_cur = nullptr;
  barrier(tl_team);
}
void GOMP_loop_end_nowait() { tl_cur = nullptr; }

bool GOMP_single_start() {
  Work *w = enter(Work());
  Team *t = team();
  pthread_mutex_lock(&t->m);
  bool mine = !w->taken;
  w->taken = true;
  pthread_mutex_unlock(&t->m);
  return mine;
}
void *GOMP_single_copy_start() {
  Work *w = enter(Work());
  Team *t = team();
  pthread_mutex_lock(&t->m);
  bool mine = !w->taken;
  w->taken = true;
  pthread_mutex_unlock(&t->m);
  if (mine) {
    tl_cur = w;
    return nullptr;
  }
  barrier(tl_team);
  return w->copy;
}
void GOMP_single_copy_end(void *p) {
  tl_cur->copy = p;
  tl_cur = nullptr;
  barrier(tl_team);
}

unsigned GOMP_sections_next() {
  long a = 0, b = 0;
  if (!tl_cur)
    tl_cur = enter(Work());
  return grab(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  tl_cur = enter(loop(1, (long)n + 1, 1, 1));
  return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n,
                            unsigned count, unsigned) {
  Work w = loop(1, (long)count + 1, 1, 1);
  parallel(fn, d, n, &w);
}
void GOMP_sections_end() {
  tl_cur = nullptr;
  barrier(tl_team);
}
void GOMP_sections_end_nowait() { tl_cur = nullptr; }

// tasks run where they are met
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *),
               long size, long align, bool, unsigned, void **, int, void *) {
  std::vector<char> buf(size + align);
  char *p = buf.data();
  if (align)
    p += (align - (size_t)p % align) % align;
  if (cpy)
    cpy(p, data);
  else
    memcpy(p, data, size);
  fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_num_threads() { return tl_n; }
int omp_get_thread_num() { return tl_id; }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_in_parallel() { return tl_n > 1; }
int omp_get_level() { return tl_team != nullptr; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtick() { return 1e-9; }
double omp_get_wtime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
void omp_init_lock(int *l) { __atomic_store_n(l, 0, __ATOMIC_SEQ_CST); }
void omp_destroy_lock(int *) {}
int omp_test_lock(int *l) {
  return !__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE);
}
void omp_set_lock(int *l) {
  while (!omp_test_lock(l))
    sched_yield();
}
void omp_unset_lock(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

void GOMP_barrier() { barrier(tl_team); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
}
