// Runs the key generator under controlled schedules. KeyGenerator.cpp is compiled with -fsanitize=thread, but linked to the
// callbacks below instead of the sanitizer runtime: every memory access, lock and guard is a scheduling point. Only one thread runs at
// a time; all schedules with up to two preemptions are tried, each in a process of its own.
#include <curves/KeyGenerator.hpp>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {
std::mutex M;
std::condition_variable CV;
int cur = -1, nthreads = 0;
bool done[16];
bool active = false;
int step = 0, pre[3], to[3], npre = 0, idle = 0;
thread_local int me = -1;

int next_alive(int from) {
  for (int k = 1; k <= nthreads; ++k) {
    int t = (from + k) % nthreads;
    if (!done[t]) return t;
  }
  return -1;
}
void give(std::unique_lock<std::mutex>& l, int t) {
  cur = t;
  CV.notify_all();
  CV.wait(l, [] { return cur == me; });
}
void point() {
  if (!active || me < 0) return;
  std::unique_lock<std::mutex> l(M);
  idle = 0;
  int s = step++;
  for (int k = 0; k < npre; ++k)
    if (pre[k] == s && to[k] != me && !done[to[k]]) { give(l, to[k]); break; }
}
void blocked() {
  std::unique_lock<std::mutex> l(M);
  if (++idle > 20000) { printf("REPLAY-FAIL no thread can make progress\n"); fflush(stdout); _exit(1); }
  int t = next_alive(me);
  if (t >= 0 && t != me) give(l, t);
}
}

extern "C" {
int sched_sched_yield() { if (active && me >= 0) blocked(); return 0; }
int sched_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active || me < 0) return pthread_mutex_lock(m);
  point();
  while (pthread_mutex_trylock(m)) blocked();
  point();
  return 0;
}
int sched_pthread_mutex_trylock(pthread_mutex_t* m) { point(); int r = pthread_mutex_trylock(m); point(); return r; }
int sched_pthread_mutex_unlock(pthread_mutex_t* m) {
  point();
  int r = pthread_mutex_unlock(m);
  point();
  return r;
}
int sched_pthread_rwlock_wrlock(pthread_rwlock_t* m) { point(); while (pthread_rwlock_trywrlock(m)) blocked(); return 0; }
int sched_pthread_rwlock_rdlock(pthread_rwlock_t* m) { point(); while (pthread_rwlock_tryrdlock(m)) blocked(); return 0; }
int sched_pthread_rwlock_unlock(pthread_rwlock_t* m) { point(); int r = pthread_rwlock_unlock(m); point(); return r; }
int sched___cxa_guard_acquire(char* g) {
  for (;;) {
    point();
    if (g[0]) return 0;
    if (!g[1]) { g[1] = 1; return 1; }
    if (!active || me < 0) return 1;
    blocked();
  }
}
void sched___cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; point(); }
void sched___cxa_guard_abort(char* g) { g[1] = 0; point(); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* a, const void* b, unsigned long n) { return memcpy(a, b, n); }
void* __tsan_memmove(void* a, const void* b, unsigned long n) { return memmove(a, b, n); }
void* __tsan_memset(void* a, int b, unsigned long n) { return memset(a, b, n); }
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
#define RW(N) void __tsan_read##N(void*) { point(); } void __tsan_write##N(void*) { point(); } \
  void __tsan_unaligned_read##N(void*) { point(); } void __tsan_unaligned_write##N(void*) { point(); } \
  void __tsan_volatile_read##N(void*) { point(); } void __tsan_volatile_write##N(void*) { point(); } \
  void __tsan_read_write##N(void*) { point(); } void __tsan_unaligned_read_write##N(void*) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* p, int) { point(); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { point(); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { point(); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { point(); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { point(); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { point(); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { point(); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { point(); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { point(); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

static int run(int n, int calls, int warm, int* steps) {
  std::vector<size_t> keys;
  std::vector<std::vector<size_t>> out(n);
  for (int k = 0; k < warm; ++k) keys.push_back(curves::KeyGenerator::getNextKey());
  nthreads = n;
  active = true;
  cur = -1;
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      { std::unique_lock<std::mutex> l(M); CV.wait(l, [&] { return cur == t; }); }
      me = t;
      for (int k = 0; k < calls; ++k) out[t].push_back(curves::KeyGenerator::getNextKey());
      me = -1;
      std::unique_lock<std::mutex> l(M);
      done[t] = true;
      cur = next_alive(t);
      CV.notify_all();
    });
  { std::unique_lock<std::mutex> l(M); cur = 0; CV.notify_all(); }
  for (auto& t : ts) t.join();
  for (auto& o : out) keys.insert(keys.end(), o.begin(), o.end());
  *steps = step;
  std::set<size_t> s(keys.begin(), keys.end());
  if (s.size() == keys.size()) return 0;
  printf("REPLAY-FAIL keys are not different:");
  for (int t = 0; t < n; ++t) { printf(" thread %d:", t); for (auto k : out[t]) printf(" %zu", k); }
  printf(" with preemptions");
  for (int k = 0; k < npre; ++k) printf(" at point %d to thread %d", pre[k], to[k]);
  printf("\n");
  return 1;
}
static int forked(int n, int calls, int warm, int* steps) {
  int fd[2];
  if (pipe(fd)) exit(2);
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    alarm(20);
    int s = 0, r = run(n, calls, warm, &s);
    fflush(stdout);
    if (write(fd[1], &s, sizeof s) < 0) _exit(2);
    _exit(r);
  }
  close(fd[1]);
  int st;
  if (read(fd[0], steps, sizeof *steps) < 0) *steps = 0;
  close(fd[0]);
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  printf("REPLAY-FAIL ended by signal %d\n", WTERMSIG(st));
  return 1;
}
int main(int argc, char** argv) {
  if (!strcmp(argv[1], "long")) {
    // one thread: calls number n1 and n2 (counted from the second call)
    unsigned long n1 = strtoul(argv[2], nullptr, 10), n2 = strtoul(argv[3], nullptr, 10);
    size_t a = 0, b = 0;
    curves::KeyGenerator::getNextKey();
    for (unsigned long i = 0; i <= n2; ++i) {
      b = curves::KeyGenerator::getNextKey();
      if (i == n1) a = b;
    }
    if (a != b) return 0;
    printf("REPLAY-FAIL calls %lu and %lu both return %zu\n", n1 + 2, n2 + 2, a);
    return 1;
  }
  int n = atoi(argv[1]), calls = atoi(argv[2]), warm = atoi(argv[3]);
  int s0 = 0, cnt = 0, d;
  npre = 0;
  ++cnt;
  if (int r = forked(n, calls, warm, &s0)) return r;
  int lim = s0 + 12;
  for (int i = 0; i < lim; ++i)
    for (int t = 0; t < n; ++t) {
      npre = 1; pre[0] = i; to[0] = t;
      ++cnt;
      if (int r = forked(n, calls, warm, &d)) return r;
    }
  for (int i = 0; i < lim && cnt < 4000; ++i)
    for (int j = i + 1; j < lim; ++j)
      for (int t = 0; t < n; ++t)
        for (int u = 0; u < n; ++u) {
          if (t == u) continue;
          npre = 2; pre[0] = i; to[0] = t; pre[1] = j; to[1] = u;
          ++cnt;
          if (int r = forked(n, calls, warm, &d)) return r;
        }
  printf("%d schedules, all keys different\n", cnt);
  return 0;
}
