// Controlled scheduler and race detector: linked into a program whose sources
// are compiled with -fsanitize=thread (for its calls of __tsan_*, the
// sanitizer's own runtime isn't linked).  In controlled mode exactly one
// thread runs at a time; it gives up control only at scheduling points
// (thread, lock, condition, futex, once, atomic and file operations), where
// the next thread is decided by the schedule.  Every memory access is checked
// against the happens-before order made by these operations.
#include "threads.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ctime>
#include <unistd.h>

namespace {

using namespace sched;

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

/// memory of the runtime itself (never through malloc)
void* pages(size_t n) {
  auto* p{mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)};
  if (p == MAP_FAILED) {
    raw(SYS_write, 2, reinterpret_cast<long>("sched: out of memory\n"), 21);
    raw(SYS_exit_group, 2);
  }
  return p;
}

constexpr int Max{48};
using Clock = unsigned;
struct Vc {
  Clock c[Max];
  void join(const Vc& o) {
    for (int i{}; i < Max; ++i)
      if (c[i] < o.c[i]) c[i] = o.c[i];
  }
};

enum class On { Nothing, Join, Mutex, Read, Write, Cond, Futex, Guard, Sem };
struct Thread {
  bool used, done, woken, timed;
  On on;
  volatile int* addr;
  void* obj;
  int value, target;
  volatile int turn;
  pthread_t handle;
  void* (*fn)(void*);
  void* arg;
  Vc vc;
};
Thread T[Max];
int Count{}, Current{}, Last{-1}, Streak{};
volatile bool Active{};
thread_local int Self{-1};

bool mine() { return Active && Self >= 0 && Self == Current; }

// objects with a state of their own: address to record
struct Obj {
  const void* p;
  Vc vc;
  int owner; ///< mutex: thread + 1
  int depth, readers, writer, by; ///< by: threads using it as atomic (mask)
  unsigned long users;
};
struct Page;
Page* page(size_t addr, bool make);
constexpr size_t ObjN{1 << 14};
Obj* Objs{};
Result* R{};
const Schedule* S{};
size_t NextDelay{};

// ---- shadow memory
struct Access {
  Clock clk;
  unsigned char tid, write, mask, free;
  unsigned next;
  const void* pc;
};
Access* Acc{};
unsigned AccN{1};
constexpr unsigned AccMax{1U << 23};
struct Page {
  unsigned head[512];
  bool objects[512]; ///< granules with an Obj
};
constexpr size_t DirN{1 << 16};
struct Dir {
  size_t key;
  Page* page;
};
Dir* Dirs{};
Page* page(size_t addr, bool make) {
  if (!Dirs) Dirs = static_cast<Dir*>(pages(DirN * sizeof(Dir)));
  const auto key{(addr >> 12) + 1};
  static size_t lastKey{};
  static Page* last{};
  if (key == lastKey) return last;
  auto h{key * 0x9e3779b97f4a7c15ULL >> 48};
  while (Dirs[h].key && Dirs[h].key != key) h = (h + 1) & (DirN - 1);
  if (!Dirs[h].key) {
    if (!make) return nullptr;
    static char *pool{}, *end{};
    if (pool == end) {
      pool = static_cast<char*>(pages(1 << 20));
      end = pool + (1 << 20);
    }
    Dirs[h] = {key, reinterpret_cast<Page*>(pool)};
    pool += sizeof(Page);
  }
  lastKey = key;
  return last = Dirs[h].page;
}

Obj& obj(const void* p) {
  if (!Objs) Objs = static_cast<Obj*>(pages(ObjN * sizeof(Obj)));
  auto h{(reinterpret_cast<size_t>(p) >> 2) * 0x9e3779b97f4a7c15ULL >> 50};
  for (size_t i{}; i < ObjN; ++i, h = (h + 1) & (ObjN - 1))
    if (!Objs[h].p || Objs[h].p == p) {
      if (!Objs[h].p) page(reinterpret_cast<size_t>(p), true)->objects[reinterpret_cast<size_t>(p) >> 3 & 511] = true;
      Objs[h].p = p;
      return Objs[h];
    }
  raw(SYS_exit_group, 3);
  __builtin_unreachable();
}

Obj* known(const void* p) {
  auto h{(reinterpret_cast<size_t>(p) >> 2) * 0x9e3779b97f4a7c15ULL >> 50};
  for (; Objs[h].p; h = (h + 1) & (ObjN - 1))
    if (Objs[h].p == p) return &Objs[h];
  return nullptr;
}

void report(const Access& o, bool write, bool isFree, size_t addr, const void* pc) {
  ++R->races;
  if (R->kept >= MaxRaces) return;
  for (int i{}; i < R->kept; ++i)
    if (R->race[i].pc[0] == o.pc && R->race[i].pc[1] == pc) return;
  auto& x{R->race[R->kept++]};
  x.addr = addr;
  x.pc[0] = o.pc;
  x.pc[1] = pc;
  x.write[0] = o.write;
  x.write[1] = write;
  x.tid[0] = o.tid;
  x.tid[1] = Self;
  x.freed = isFree || o.free;
}

void granule(size_t g, unsigned char mask, bool write, const void* pc, bool isFree = false) {
  auto& head{page(g << 3, true)->head[g & 511]};
  auto& me{T[Self]};
  bool kept{};
  for (unsigned i{head}, *prev{&head}; i;) {
    auto& a{Acc[i]};
    if (a.tid != Self && (a.write || write) && a.mask & mask && a.clk > me.vc.c[a.tid]) report(a, write, isFree, g << 3, pc);
    if (a.tid == Self && !a.free) {
      if (a.write == write && (a.mask & ~mask) == 0 && !kept) {
        a = {me.vc.c[Self], static_cast<unsigned char>(Self), write, mask, isFree, a.next, pc};
        kept = true;
      } else if ((a.mask & ~mask) == 0 && (write || !a.write) && a.clk <= me.vc.c[Self] && (write == a.write)) {
        *prev = a.next; // replaced by the new one
        i = a.next;
        continue;
      }
    }
    prev = &a.next;
    i = a.next;
  }
  if (!kept) {
    if (AccN == AccMax) {
      R->overflow = true;
      return;
    }
    Acc[AccN] = {me.vc.c[Self], static_cast<unsigned char>(Self), write, mask, isFree, head, pc};
    head = AccN++;
  }
}
void access(const void* p, size_t n, bool write, const void* pc, bool isFree = false) {
  if (!mine() || !n) return;
  ++R->accesses;
  auto a{reinterpret_cast<size_t>(p)};
  const auto end{a + n};
  while (a < end) {
    const auto g{a >> 3};
    const auto from{a & 7}, to{(end - (g << 3)) < 8 ? end - (g << 3) : 8};
    granule(g, static_cast<unsigned char>((0xff << from) & (0xff >> (8 - to))), write, pc, isFree);
    a = (g + 1) << 3;
  }
}
/// memory gets a new meaning
void forget(const void* p, size_t n) {
  if (!mine()) return;
  const auto a{reinterpret_cast<size_t>(p)};
  for (auto g{a >> 3}; g <= (a + n - 1) >> 3;) {
    auto* x{page(g << 3, false)};
    if (!x) {
      g = ((g >> 9) + 1) << 9;
      continue;
    }
    x->head[g & 511] = 0;
    if (x->objects[g & 511])
      for (size_t i{g << 3}; i < (g + 1) << 3; ++i)
        if (auto* o{known(reinterpret_cast<void*>(i))}) *o = {o->p};
    ++g;
  }
}

// ---- scheduling
bool enabled(int t) {
  auto& x{T[t]};
  if (!x.used || x.done) return false;
  switch (x.on) {
  case On::Nothing: return true;
  case On::Join: return T[x.target].done;
  case On::Mutex: return !obj(x.obj).owner || obj(x.obj).owner == t + 1;
  case On::Read: return !obj(x.obj).writer;
  case On::Write: return !obj(x.obj).writer && !obj(x.obj).readers;
  case On::Cond: return x.woken || x.timed;
  case On::Futex: return x.woken || x.timed || *x.addr != x.value;
  case On::Guard: return (*x.addr & 0x100) == 0;
  case On::Sem: {
    int v{};
    sem_getvalue(static_cast<sem_t*>(x.obj), &v);
    return v > 0 || x.timed;
  }
  }
  return false;
}

void handTo(int t) {
  Current = t;
  __atomic_store_n(&T[t].turn, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, reinterpret_cast<long>(&T[t].turn), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
void await(int t) {
  while (!__atomic_load_n(&T[t].turn, __ATOMIC_SEQ_CST)) raw(SYS_futex, reinterpret_cast<long>(&T[t].turn), FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  T[t].turn = 0;
}

void stop(const char* why) {
  snprintf(R->stopped, sizeof R->stopped, "%s", why);
  raw(SYS_exit_group, 7);
}

/// decide who is next; `must`: the running thread can't or wants not to go on
void next(bool leave, int created = -1) {
  int e[Max], n{}, cur{-1};
  const int dir{S->base == Base::Reverse ? -1 : 1};
  // enabled threads in cyclic order, starting with the running one
  for (int i{}; i < Count; ++i) {
    const int t{((Self + dir * i) % Count + Count) % Count};
    if (enabled(t)) {
      if (t == Self) cur = n;
      e[n++] = t;
    }
  }
  if (!n) stop("deadlock: every thread waits");
  int pick{};
  if (cur == 0) {
    if (leave || Streak > 2000)
      pick = n > 1;
    else if (S->base == Base::RoundRobin)
      pick = n > 1;
    else if (S->base == Base::ChildFirst && created >= 0)
      for (int i{}; i < n; ++i)
        if (e[i] == created) pick = i;
  }
  if (n > 1) {
    const auto at{R->points++};
    if (at < MaxPoints) R->enabled[at] = static_cast<unsigned char>(n);
    while (NextDelay < S->delays && S->at[NextDelay] < at) ++NextDelay;
    while (NextDelay < S->delays && S->at[NextDelay] == at) {
      ++NextDelay;
      pick = (pick + 1) % n;
    }
  }
  const int t{e[pick]};
  if (R->switches < MaxPoints && t != Self) R->order[R->switches] = static_cast<unsigned char>(t);
  Streak = t == Self ? Streak + 1 : 0;
  if (t == Self) return;
  ++R->switches;
  const int me{Self};
  handTo(t);
  if (!T[me].done) await(me);
}

void point(bool leave = false, int created = -1) {
  if (!mine()) return;
  ++R->operations;
  next(leave, created);
}
/// wait for something
void block(On on, void* o = nullptr, int target = 0, volatile int* addr = nullptr, int value = 0, bool timed = false) {
  auto& x{T[Self]};
  x.on = on;
  x.obj = o;
  x.target = target;
  x.addr = addr;
  x.value = value;
  x.woken = false;
  x.timed = timed;
  ++R->operations;
  next(false);
  x.on = On::Nothing;
}
void acquire(Vc& v) { T[Self].vc.join(v); }
void release(Vc& v) {
  v.join(T[Self].vc);
  ++T[Self].vc.c[Self];
}

template <typename F> F real(const char* name, F& cache) {
  if (!cache) cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  return cache;
}
#define REAL(name) \
  static decltype(&::name) cache_; \
  auto real_{real(#name, cache_)}

void* start(void* p) {
  const int t{static_cast<int>(reinterpret_cast<size_t>(p))};
  Self = t;
  await(t);
  // the stack, and the thread local variables above it, may have been another thread's
  auto* sp{static_cast<char*>(__builtin_frame_address(0))};
  auto* top{reinterpret_cast<char*>(pthread_self())};
  if (top < sp || top > sp + (1 << 20)) top = sp;
  forget(sp - (256 << 10), static_cast<size_t>(top - sp) + (256 << 10));
  auto* r{T[t].fn(T[t].arg)};
  T[t].done = true;
  if (Active) next(false);
  Self = -1;
  return r;
}

} // namespace

namespace sched {

void begin(const Schedule& s, Result& r) {
  S = &s;
  R = &r;
  if (!Acc) Acc = static_cast<Access*>(pages(sizeof(Access) * AccMax));
  Count = 1;
  Current = Self = 0;
  T[0].used = true;
  T[0].handle = pthread_self();
  T[0].vc.c[0] = 1;
  Active = true;
}
void finish() {
  // let threads that nobody joined end
  while (true) {
    bool more{};
    for (int i{1}; i < Count; ++i) more = more || (T[i].used && !T[i].done);
    if (!more) break;
    bool any{};
    for (int i{1}; i < Count; ++i) any = any || enabled(i);
    if (!any) stop("threads left waiting");
    point(true);
  }
  R->threads = Count;
  Active = false;
}

} // namespace sched

extern "C" {

// ---- threads
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!mine()) return real_(h, a, fn, arg);
  if (Count == Max) stop("too many threads");
  const int t{Count};
  T[t].fn = fn;
  T[t].arg = arg;
  T[t].used = true;
  T[t].vc = T[Self].vc;
  T[t].vc.c[t] = 1;
  ++T[Self].vc.c[Self];
  const auto rc{real_(h, a, start, reinterpret_cast<void*>(static_cast<size_t>(t)))};
  if (rc) {
    T[t].used = false;
    return rc;
  }
  T[t].handle = *h;
  ++Count;
  point(false, t);
  return 0;
}
int pthread_join(pthread_t h, void** r) {
  REAL(pthread_join);
  if (mine())
    for (int i{}; i < Count; ++i)
      if (T[i].used && pthread_equal(T[i].handle, h)) {
        block(On::Join, nullptr, i);
        acquire(T[i].vc);
        T[i].used = false;
        const auto rc{real_(h, r)};
        return rc;
      }
  return real_(h, r);
}
int sched_yield() {
  if (mine()) point(true);
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  REAL(nanosleep);
  if (!mine()) return real_(a, b);
  point(true);
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
  REAL(clock_nanosleep);
  if (!mine()) return real_(c, f, a, b);
  point(true);
  return 0;
}
int usleep(useconds_t u) {
  REAL(usleep);
  if (!mine()) return real_(u);
  point(true);
  return 0;
}

// ---- locks
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!mine()) return real_(m);
  point();
  const bool again{obj(m).owner == Self + 1 && (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE};
  if (obj(m).owner == Self + 1 && !again) stop("deadlock: a thread locks a mutex it holds");
  if (obj(m).owner && !again) block(On::Mutex, m);
  auto& o{obj(m)};
  o.owner = Self + 1;
  ++o.depth;
  acquire(o.vc);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (!mine()) return real_(m);
  point();
  auto& o{obj(m)};
  if (o.owner && !(o.owner == Self + 1 && (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
  o.owner = Self + 1;
  ++o.depth;
  acquire(o.vc);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!mine() || obj(m).owner != Self + 1) return real_(m);
  auto& o{obj(m)};
  release(o.vc);
  if (!--o.depth) o.owner = 0;
  point();
  return 0;
}
static int rdlock(pthread_rwlock_t* l, bool wait) {
  point();
  if (obj(l).writer) {
    if (!wait) return EBUSY;
    block(On::Read, l);
  }
  auto& o{obj(l)};
  ++o.readers;
  acquire(o.vc);
  return 0;
}
static int wrlock(pthread_rwlock_t* l, bool wait) {
  point();
  if (obj(l).writer || obj(l).readers) {
    if (!wait) return EBUSY;
    block(On::Write, l);
  }
  auto& o{obj(l)};
  o.writer = Self + 1;
  acquire(o.vc);
  return 0;
}
#define RW(name, call) \
  int name(pthread_rwlock_t* l) { \
    REAL(name); \
    return mine() ? call : real_(l); \
  }
RW(pthread_rwlock_rdlock, rdlock(l, true))
RW(pthread_rwlock_tryrdlock, rdlock(l, false))
RW(pthread_rwlock_wrlock, wrlock(l, true))
RW(pthread_rwlock_trywrlock, wrlock(l, false))
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_unlock);
  if (!mine() || (!obj(l).writer && !obj(l).readers)) return real_(l);
  auto& o{obj(l)};
  release(o.vc);
  if (o.writer)
    o.writer = 0;
  else
    --o.readers;
  point();
  return 0;
}

// ---- conditions
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  {
    auto& o{obj(m)};
    release(o.vc);
    o.owner = 0;
    o.depth = 0;
  }
  block(On::Cond, c, 0, nullptr, 0, timed);
  const bool woken{T[Self].woken};
  if (woken) acquire(obj(c).vc);
  if (obj(m).owner) block(On::Mutex, m);
  auto& o{obj(m)};
  o.owner = Self + 1;
  o.depth = 1;
  acquire(o.vc);
  return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  return mine() ? condWait(c, m, false) : real_(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  REAL(pthread_cond_timedwait);
  return mine() ? condWait(c, m, true) : real_(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  REAL(pthread_cond_clockwait);
  return mine() ? condWait(c, m, true) : real_(c, m, k, t);
}
static void wake(On on, void* o, volatile int* addr, int n) {
  for (int i{}; i < Count && n; ++i)
    if (T[i].used && !T[i].done && T[i].on == on && !T[i].woken && (addr ? T[i].addr == addr : T[i].obj == o)) {
      T[i].woken = true;
      --n;
    }
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal);
  if (!mine()) return real_(c);
  release(obj(c).vc);
  wake(On::Cond, c, nullptr, 1);
  point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast);
  if (!mine()) return real_(c);
  release(obj(c).vc);
  wake(On::Cond, c, nullptr, Max);
  point();
  return 0;
}
int sem_wait(sem_t* s) {
  REAL(sem_wait);
  if (mine()) {
    block(On::Sem, s);
    acquire(obj(s).vc);
  }
  return real_(s);
}
int sem_post(sem_t* s) {
  REAL(sem_post);
  if (mine()) release(obj(s).vc);
  const auto r{real_(s)};
  point();
  return r;
}

// ---- futexes (std::future, atomic waits)
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (auto& i : a) i = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && mine()) {
    auto* const addr{reinterpret_cast<volatile int*>(a[0])};
    const auto op{a[1] & 127};
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*addr != static_cast<int>(a[2])) {
        point();
        errno = EAGAIN;
        return -1;
      }
      block(On::Futex, nullptr, 0, addr, static_cast<int>(a[2]), a[3] != 0);
      if (!T[Self].woken && a[3] && *addr == static_cast<int>(a[2])) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      wake(On::Futex, nullptr, addr, static_cast<int>(a[2]));
      point();
      return 0;
    }
  }
  const auto r{raw(n, a[0], a[1], a[2], a[3], a[4], a[5])};
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// ---- initialisation of local statics and std::call_once
int __cxa_guard_acquire(long* g) {
  auto* const done{reinterpret_cast<char*>(g)};
  auto* const word{reinterpret_cast<volatile int*>(g)};
  if (mine()) {
    if (!*done) point();
    while (!*done && *word & 0x100) block(On::Guard, nullptr, 0, word);
    if (*done) {
      acquire(obj(g).vc);
      return 0;
    }
    *word = *word | 0x100;
    return 1;
  }
  if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) return 0;
  *word = *word | 0x100; // only one thread outside of controlled mode
  return 1;
}
void __cxa_guard_release(long* g) {
  if (mine()) release(obj(g).vc);
  *reinterpret_cast<volatile int*>(g) = 1;
  if (mine()) point();
}
void __cxa_guard_abort(long* g) {
  *reinterpret_cast<volatile int*>(g) = 0;
  if (mine()) point();
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  REAL(pthread_once);
  if (!mine()) return real_(o, f);
  auto* const word{reinterpret_cast<volatile int*>(o)};
  point();
  while (*word == 0x101) block(On::Guard, nullptr, 0, word);
  if (*word == 2) {
    acquire(obj(o).vc);
    return 0;
  }
  *word = 0x101;
  try {
    f();
  } catch (...) {
    *word = 0;
    throw;
  }
  release(obj(o).vc);
  *word = 2;
  point();
  return 0;
}

// ---- files: places where a thread may lose control
#define FILE_OP(ret, name, params, args) \
  ret name params { \
    REAL(name); \
    if (mine()) point(); \
    return real_ args; \
  }
FILE_OP(FILE*, fopen, (const char* a, const char* b), (a, b))
FILE_OP(FILE*, fopen64, (const char* a, const char* b), (a, b))
FILE_OP(ssize_t, read, (int a, void* b, size_t c), (a, b, c))
FILE_OP(DIR*, opendir, (const char* a), (a))
FILE_OP(DIR*, fdopendir, (int a), (a))
FILE_OP(dirent*, readdir, (DIR * a), (a))
FILE_OP(dirent64*, readdir64, (DIR * a), (a))
int open(const char* p, int f, ...) {
  va_list v;
  va_start(v, f);
  const auto m{va_arg(v, mode_t)};
  va_end(v);
  if (mine()) point();
  const auto r{raw(SYS_openat, AT_FDCWD, reinterpret_cast<long>(p), f, m)};
  if (r < 0) errno = static_cast<int>(-r);
  return r < 0 ? -1 : static_cast<int>(r);
}
int open64(const char* p, int f, ...) {
  va_list v;
  va_start(v, f);
  const auto m{va_arg(v, mode_t)};
  va_end(v);
  return open(p, f, m);
}

// ---- memory: a new block has no history, a freed one conflicts with any use
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void freed(void* p, const void* pc) {
  if (p && mine()) {
    const auto n{malloc_usable_size(p)};
    access(p, n < 4096 ? n : 4096, true, pc, true);
  }
}
void* malloc(size_t n) {
  auto* p{__libc_malloc(n)};
  if (p && mine()) forget(p, malloc_usable_size(p));
  return p;
}
void* calloc(size_t a, size_t b) {
  auto* p{__libc_calloc(a, b)};
  if (p && mine()) forget(p, malloc_usable_size(p));
  return p;
}
void* realloc(void* o, size_t n) {
  freed(o, __builtin_return_address(0));
  auto* p{__libc_realloc(o, n)};
  if (p && mine()) forget(p, malloc_usable_size(p));
  return p;
}
void* memalign(size_t a, size_t n) {
  auto* p{__libc_memalign(a, n)};
  if (p && mine()) forget(p, malloc_usable_size(p));
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}
void free(void* p) {
  freed(p, __builtin_return_address(0));
  __libc_free(p);
}

// ---- calls made by instrumented code
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_vptr_read(void* p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }

} // extern "C"

namespace {
/// an atomic operation: a place to switch if several threads use the address
void atomicOp(const volatile void* p, int order, bool reads, bool writes) {
  if (!mine()) return;
  const auto* a{const_cast<const void*>(p)};
  obj(a).users |= 1UL << Self;
  if (obj(a).users & (obj(a).users - 1)) {
    ++R->atomics;
    if (S->fine) point();
  }
  auto& o{obj(a)};
  if (order == __ATOMIC_RELAXED) return;
  if (reads && order != __ATOMIC_RELEASE) acquire(o.vc);
  if (writes && order != __ATOMIC_ACQUIRE && order != __ATOMIC_CONSUME) release(o.vc);
}
} // namespace

extern "C" {
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* p, int o) { \
    atomicOp(p, o, true, false); \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##bits##_store(volatile type* p, type v, int o) { \
    atomicOp(p, o, false, true); \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_exchange(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int o) { \
    atomicOp(p, o, true, true); \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int o, int) { \
    atomicOp(p, o, true, true); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int o, int) { \
    atomicOp(p, o, true, true); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int o, int) { \
    atomicOp(p, o, true, true); \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return e; \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
}
