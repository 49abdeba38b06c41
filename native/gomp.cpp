// The part of the OpenMP runtime parallel loops need, on plain threads (so the thread sanitizer sees every ordering).
#include <pthread.h>
#include <cstdlib>
#include <vector>
static __thread int tid = 0, team = 1;
static pthread_barrier_t* bar = nullptr; static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
struct Job { void (*f)(void*); void* d; int t, n; };
static void* go(void* p) { Job* j = (Job*)p; tid = j->t; team = j->n; j->f(j->d); return nullptr; }
extern "C" {
int omp_get_num_threads() { return team; } int omp_get_thread_num() { return tid; } int omp_get_max_threads() { const char* e = getenv("SX_THREADS"); int n = e ? atoi(e) : 1; return n > 0 ? n : 1; } void omp_set_num_threads(int) { } int omp_get_num_procs() { return 8; }
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) {
  if (team > 1) { f(d); return; } int T = n ? (int)n : omp_get_max_threads(); std::vector<Job> j(T); std::vector<pthread_t> p(T); pthread_barrier_t b; pthread_barrier_init(&b, nullptr, T); bar = &b;
  for (int t = 1; t < T; t++) { j[t] = Job{f, d, t, T}; pthread_create(&p[t], nullptr, go, &j[t]); } tid = 0; team = T; f(d); team = 1; for (int t = 1; t < T; t++) pthread_join(p[t], nullptr); pthread_barrier_destroy(&b); }
void GOMP_barrier() { if (team > 1) pthread_barrier_wait(bar); } void GOMP_critical_start() { pthread_mutex_lock(&crit); } void GOMP_critical_end() { pthread_mutex_unlock(&crit); } void GOMP_atomic_start() { pthread_mutex_lock(&crit); } void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
bool GOMP_loop_nonmonotonic_dynamic_start(long, long, long, long, long*, long*) { abort(); } bool GOMP_loop_nonmonotonic_dynamic_next(long*, long*) { abort(); } void GOMP_loop_end_nowait() { }
}
