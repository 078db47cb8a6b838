// The runtime of the model checker; see mc.h.  Not instrumented.
#include "mc/mc.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <exception>
#include <future>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"

namespace mc {
namespace internal {

constexpr int kMaxThreads = 12;
constexpr int kMaxTrail = 1 << 15;
constexpr int kMaxShared = 1 << 14;
constexpr std::size_t kArenaSize = std::size_t{1} << 31;
constexpr std::uintptr_t kArenaBase = 0x200000000000;
constexpr std::size_t kStackSize = 1 << 20;
constexpr std::uintptr_t kStackBase = 0x210000000000;
constexpr std::int64_t kEpochNs = 1'000'000'000;

// ---------------------------------------------------------------- Shared state

struct Point {
  std::uint16_t choice;
  std::uint16_t n;      // Number of alternatives.
  std::uint16_t zero;   // Number of alternatives that cost nothing.
  std::uint16_t kind;   // 0: schedule, 1: data.
};

struct Slot {
  std::atomic<std::uint64_t> heartbeat;
  std::atomic<int> busy;            // In an execution.
  int trail_size;
  int trail_base;                   // Do not backtrack before that.
  int have_work;                    // A prefix is loaded; continue the DFS.
  int replay_size;                  // How much of the trail is being replayed.
  Point trail[kMaxTrail];
  char message[4096];
};

struct SharedSet {
  std::atomic<int> size;
  std::uint64_t key[kMaxShared];
};

struct Shared {
  std::atomic<std::uint64_t> executions, transitions, points, truncated, leaks,
      max_points, max_threads;
  std::atomic<int> next_prefix;
  std::atomic<int> stop;
  std::atomic<std::uint64_t> reached;
  std::atomic<int> outcome_count;
  std::uint64_t outcomes[1 << 16];    // Hash set, 0 is empty.
  char outcome_sample[8][512];
  std::atomic<int> outcome_samples;
  SharedSet learned;                 // Found in this phase.
  int prefix_count;
  int prefix_start[4096 + 1];
  Point prefix_data[1 << 20];
  Slot slots[64];
};

Shared* g_shared = nullptr;
Slot* g_slot = nullptr;
std::unordered_set<std::uint64_t>* g_frozen = nullptr;  // Shared object keys.
bool g_all_visible = false;
bool g_trace = false;
bool g_replay = false;
int g_bound = 0;
int g_prefix_limit = -1;  // If nonnegative, enumerating prefixes.
std::vector<Registrar*>* unused_ = nullptr;

struct Harness {
  std::string name;
  void (*body)();
  Options options;
};
std::vector<Harness>& Harnesses() {
  static auto* h = new std::vector<Harness>;
  return *h;
}
Harness* g_harness = nullptr;

// -------------------------------------------------------------------- Threads

struct Clock {
  std::uint32_t c[kMaxThreads];
  void Join(Clock const& o) {
    for (int i = 0; i < kMaxThreads; ++i) {
      if (o.c[i] > c[i]) { c[i] = o.c[i]; }
    }
  }
};

struct Pending {
  Kind kind;
  void const* object;
  bool (*enabled)(void*);
  bool (*timeable)(void*);
  void* arg;
  std::int64_t deadline;
};

struct Thread {
  int id;
  pthread_t pt;
  Clock vc;
  Pending pending;
  bool created = false, started = false, exited = false, timed_out = false;
  bool detached = false, yielding = false;
  int no_point = 0;     // Nesting of static initialization.
  int internal = 0;     // Nesting of runtime code.
  std::atomic<int> go{0};
  std::thread::_State_ptr state;
  void (*body)() = nullptr;
};

Thread g_threads[kMaxThreads];
int g_thread_count = 0;
int g_current = -1;
int g_cost = 0;
int g_steps = 0;
std::int64_t g_now = 0;
std::atomic<int> g_done{0};
bool g_running = false;
std::uint32_t g_generation = 0;
pthread_key_t g_exit_key;
thread_local Thread* t_self = nullptr;

std::vector<Event>* g_log = nullptr;
std::string* g_outcome = nullptr;

struct InternalScope {
  Thread* const t = t_self;
  InternalScope() { if (t) ++t->internal; }
  ~InternalScope() { if (t) --t->internal; }
};

long Futex(std::atomic<int>* addr, int op, int val) {
  return syscall(SYS_futex, reinterpret_cast<int*>(addr), op, val, nullptr,
                 nullptr, 0);
}
void WaitFor(std::atomic<int>& word) {
  while (word.load(std::memory_order_acquire) == 0) {
    Futex(&word, FUTEX_WAIT_PRIVATE, 0);
  }
  word.store(0, std::memory_order_relaxed);
}
void Wake(std::atomic<int>& word) {
  word.store(1, std::memory_order_release);
  Futex(&word, FUTEX_WAKE_PRIVATE, 1);
}

[[noreturn]] void ExitWith(int const code) {
  fflush(nullptr);
  _exit(code);
}

void SetMessage(char const* m) {
  strncpy(g_slot->message, m, sizeof(g_slot->message) - 1);
}

char const* KindName(Kind k) {
  static char const* const names[] = {
      "start", "lock", "reader-lock", "await", "wait-notification", "join",
      "atomic", "yield", "sleep", "future-wait", "point", "notify", "once",
      "block", "exit"};
  return names[static_cast<int>(k)];
}

void DescribeThreads(std::string& s) {
  char b[200];
  for (int i = 0; i < g_thread_count; ++i) {
    Thread& t = g_threads[i];
    snprintf(b, sizeof b, " T%d:%s", i,
             t.exited ? "exited" : KindName(t.pending.kind));
    s += b;
  }
}

}  // namespace internal

using namespace internal;

void Fail(std::string const& message) {
  InternalScope scope;
  char b[4000];
  snprintf(b, sizeof b, "%s (thread T%d, step %d)", message.c_str(),
           t_self ? t_self->id : -1, g_steps);
  SetMessage(b);
  if (g_trace) { fprintf(stderr, "FAIL: %s\n", b); }
  ExitWith(77);
}

namespace internal {
void Fatal(std::string const& message) { Fail(message); }

// ----------------------------------------------------------------------- Arena

struct Header {
  std::size_t size;
  std::uint64_t live;
};
char* const g_arena = reinterpret_cast<char*>(kArenaBase);
std::size_t g_arena_used = 0, g_arena_base = 0, g_arena_high = 0;
std::uint64_t g_live_blocks = 0;
std::uint8_t* g_poison = nullptr;  // A bit per 8 bytes, set if not accessible.

bool InArena(void const* p) {
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  return a >= kArenaBase && a < kArenaBase + kArenaSize;
}
void SetPoison(std::size_t begin, std::size_t end, bool value) {
  for (std::size_t g = begin / 8; g < (end + 7) / 8; ++g) {
    if (value) {
      g_poison[g >> 3] |= 1 << (g & 7);
    } else {
      g_poison[g >> 3] &= ~(1 << (g & 7));
    }
  }
}

void Access(void const* p, std::size_t n, int type, void* pc);

void* Allocate(std::size_t n, std::size_t align) {
  Thread* const t = t_self;
  if (t == nullptr || t->internal > 0 || t->no_point > 0 || !g_running) {
    void* p = nullptr;
    if (align <= 16) {
      p = malloc(n ? n : 1);
    } else if (posix_memalign(&p, align, n ? n : 1) != 0) {
      p = nullptr;
    }
    return p;
  }
  if (align < 16) align = 16;
  std::size_t const start =
      (g_arena_used + sizeof(Header) + align - 1) / align * align;
  std::size_t const end = (start + (n ? n : 1) + 7) / 8 * 8;
  if (end + 64 > kArenaSize) { Fail("out of arena memory"); }
  SetPoison(g_arena_used, start, true);
  SetPoison(start, end, false);
  SetPoison(end, end + 16, true);
  g_arena_used = end + 16;
  if (g_arena_used > g_arena_high) { g_arena_high = g_arena_used; }
  auto* const h = reinterpret_cast<Header*>(g_arena + start - sizeof(Header));
  h->size = n;
  h->live = 0x11fe11fe11fe11fe;
  ++g_live_blocks;
  // Fill to make reads of uninitialized memory deterministic.
  memset(g_arena + start, 0xCD, end - start);
  return g_arena + start;
}

void Deallocate(void* p) {
  if (p == nullptr) return;
  if (!InArena(p)) {
    free(p);
    return;
  }
  auto* const h = reinterpret_cast<Header*>(static_cast<char*>(p) -
                                            sizeof(Header));
  if (h->live != 0x11fe11fe11fe11fe) {
    Fail("double or invalid free");
  }
  Thread* const t = t_self;
  if (t != nullptr && t->internal == 0 && g_running) {
    Access(p, h->size < (1 << 16) ? h->size : (1 << 16), 3,
           __builtin_return_address(0));
  }
  h->live = 0xdead;
  --g_live_blocks;
  std::size_t const start = static_cast<char*>(p) - g_arena;
  SetPoison(start, start + (h->size ? h->size : 1), true);
  memset(p, 0xDD, h->size);
}

// -------------------------------------------------------------- Race detection

struct Entry {
  std::uint32_t clk;
  std::uint8_t tid, mask, type, used;  // type 0 read, 1 write, 2 atomic, 3 free
  void* pc;
};
struct Cell {
  std::uint64_t tag;
  std::uint32_t generation;
  std::uint32_t next;
  Entry e[8];
};
constexpr std::size_t kCells = 1 << 16;
Cell* g_cells = nullptr;

std::uintptr_t g_stack_lo = 0, g_stack_hi = 0;

bool Conflicts(int const a, int const b) {
  if (a == 0 && b == 0) return false;
  if (a == 2 && b == 2) return false;
  if ((a == 0 && b == 2) || (a == 2 && b == 0)) {
    // An atomic store and a plain read do conflict, but we don't distinguish
    // atomic loads from atomic stores; be lenient.
    return false;
  }
  return true;
}

void AccessGranule(std::uint64_t const granule, std::uint8_t const mask,
                   int const type, void* const pc, Thread* const t) {
  std::size_t i = (granule * 0x9E3779B97F4A7C15ull) >> 48;
  Cell* c = nullptr;
  for (int probe = 0; probe < 64; ++probe) {
    Cell& x = g_cells[(i + probe) & (kCells - 1)];
    if (x.generation != g_generation) {
      x.generation = g_generation;
      x.tag = granule;
      x.next = 0;
      for (auto& e : x.e) e.used = 0;
      c = &x;
      break;
    }
    if (x.tag == granule) {
      c = &x;
      break;
    }
  }
  if (c == nullptr) return;  // Table full: the access isn't checked.
  std::uint32_t const clk = t->vc.c[t->id];
  int slot = -1;
  for (int k = 0; k < 8; ++k) {
    Entry& e = c->e[k];
    if (!e.used) {
      if (slot < 0) slot = k;
      continue;
    }
    if (e.tid == t->id) {
      if (e.type == type && (e.mask & ~mask) == 0) {
        e.used = 0;
        if (slot < 0) slot = k;
      }
      continue;
    }
    if ((e.mask & mask) && Conflicts(e.type, type) &&
        e.clk > t->vc.c[e.tid]) {
      static char const* const names[] = {"read", "write", "atomic access",
                                          "free"};
      char b[600];
      snprintf(b, sizeof b,
               "data race at %p: %s by T%d (pc %p) and %s by T%d (pc %p)",
               reinterpret_cast<void*>(granule * 8), names[type], t->id, pc,
               names[e.type], e.tid, e.pc);
      Fail(b);
    }
  }
  if (slot < 0) {
    slot = c->next++ & 7;
  }
  c->e[slot] = {clk, static_cast<std::uint8_t>(t->id), mask,
                static_cast<std::uint8_t>(type), 1, pc};
}

void Access(void const* const p, std::size_t const n, int const type,
            void* const pc) {
  Thread* const t = t_self;
  if (t == nullptr || t->internal > 0 || !g_running) return;
  auto const a = reinterpret_cast<std::uintptr_t>(p);
  bool const arena = a - kArenaBase < kArenaSize;
  if (!arena && a < 4096) {
    Fail("null pointer access");
  }
  std::uint64_t const first = a >> 3;
  std::uint64_t const last = (a + n - 1) >> 3;
  if (n == 0) return;
  for (std::uint64_t g = first; g <= last; ++g) {
    std::uint64_t const lo = g == first ? (a & 7) : 0;
    std::uint64_t const hi = g == last ? ((a + n - 1) & 7) : 7;
    std::uint8_t const mask = ((1u << (hi + 1)) - 1) & ~((1u << lo) - 1);
    if (arena) {
      std::size_t const k = g - (kArenaBase >> 3);
      if (g_poison[k >> 3] & (1 << (k & 7))) {
        char b[300];
        snprintf(b, sizeof b,
                 "access to freed or out-of-bounds memory at %p (pc %p)",
                 reinterpret_cast<void*>(g * 8), pc);
        Fail(b);
      }
    }
    AccessGranule(g, mask, type, pc, t);
  }
}

// -------------------------------------------------------------- Sync object clocks

std::unordered_map<std::uintptr_t, Clock>* g_clocks = nullptr;
std::unordered_map<std::uint64_t, int>* g_first_thread = nullptr;

void AcquireKey(std::uintptr_t k) {
  if (!t_self) return;
  auto const it = g_clocks->find(k);
  if (it != g_clocks->end()) { t_self->vc.Join(it->second); }
}
void ReleaseKey(std::uintptr_t k) {
  if (!t_self) return;
  auto const [it, inserted] = g_clocks->try_emplace(k, t_self->vc);
  if (!inserted) it->second.Join(t_self->vc);
  ++t_self->vc.c[t_self->id];
}
void ReleaseStoreKey(std::uintptr_t k) {
  if (!t_self) return;
  (*g_clocks)[k] = t_self->vc;
  ++t_self->vc.c[t_self->id];
}
void Acquire(void const* o) {
  InternalScope s;
  AcquireKey(reinterpret_cast<std::uintptr_t>(o));
}
void Release(void const* o) {
  InternalScope s;
  ReleaseKey(reinterpret_cast<std::uintptr_t>(o));
}
void ReleaseStore(void const* o) {
  InternalScope s;
  ReleaseStoreKey(reinterpret_cast<std::uintptr_t>(o));
}
void Forget(void const* o) {
  if (!t_self) return;
  InternalScope s;
  g_clocks->erase(reinterpret_cast<std::uintptr_t>(o));
  g_clocks->erase(reinterpret_cast<std::uintptr_t>(o) + 1);
}

std::uint64_t KeyOf(void const* o) {
  auto const a = reinterpret_cast<std::uintptr_t>(o);
  if (a - kArenaBase < kArenaSize) {
    return (std::uint64_t{1} << 60) + (a - kArenaBase - g_arena_base);
  }
  return a;
}

// Whether the object is accessed by more than one thread.
bool IsShared(void const* o) {
  std::uint64_t const key = KeyOf(o);
  auto const [it, inserted] = g_first_thread->try_emplace(key, t_self->id);
  if (!inserted && it->second != t_self->id && it->second != -1) {
    it->second = -1;
    if (g_frozen->count(key) == 0) {
      auto& l = g_shared->learned;
      int const n = l.size.load();
      bool found = false;
      for (int i = 0; i < n && i < kMaxShared; ++i) {
        if (l.key[i] == key) found = true;
      }
      if (!found) {
        int const k = l.size.fetch_add(1);
        if (k < kMaxShared) {
          l.key[k] = key;
        }
      }
    }
  }
  return g_all_visible || g_frozen->count(key) > 0;
}

// ------------------------------------------------------------------- Scheduling

int TakeChoice(int const n, int const zero, int const kind) {
  if (n == 1) return 0;
  Slot& s = *g_slot;
  int const i = s.trail_size;
  if (i >= kMaxTrail) { Fail("too many choice points"); }
  if (i < s.replay_size) {
    Point& p = s.trail[i];
    if (p.n != n || p.zero != zero || p.kind != kind) {
      char b[200];
      snprintf(b, sizeof b,
               "MC-DIVERGENCE: point %d was (%d,%d,%d), is now (%d,%d,%d)", i,
               p.n, p.zero, p.kind, n, zero, kind);
      SetMessage(b);
      ExitWith(79);
    }
  } else {
    s.trail[i] = {0, static_cast<std::uint16_t>(n),
                  static_cast<std::uint16_t>(zero),
                  static_cast<std::uint16_t>(kind)};
  }
  ++s.trail_size;
  int const c = s.trail[i].choice;
  if (kind == 0 && c >= zero) { ++g_cost; }
  return c;
}

bool IsEnabled(Thread& t) {
  Pending& p = t.pending;
  return p.enabled == nullptr || p.enabled(p.arg);
}
bool IsTimeable(Thread& t) {
  Pending& p = t.pending;
  return p.deadline != kNever &&
         (p.timeable == nullptr || p.timeable(p.arg));
}

// Chooses the next thread to run; `self` is the thread running the scheduler,
// whose pending operation is set, or which exited.
Thread* PickNext(Thread* const self) {
  ++g_steps;
  g_shared->transitions.fetch_add(1, std::memory_order_relaxed);
  g_slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
  if (g_steps > g_harness->options.max_steps) {
    if (g_harness->options.livelock_is_violation) {
      std::string s = "livelock: no termination within the step bound;";
      DescribeThreads(s);
      Fail(s);
    }
    ExitWith(78);
  }
  // Candidates, in canonical order: the current thread, then the others by
  // ascending id, then those that can only proceed by the passage of time.
  struct Candidate { Thread* t; bool timeout; };
  Candidate zero[kMaxThreads], one[2 * kMaxThreads];
  int nzero = 0, none = 0;
  bool const self_live = self != nullptr && !self->exited;
  bool self_enabled = false;
  bool enabled[kMaxThreads];
  bool late[kMaxThreads];
  for (int i = 0; i < g_thread_count; ++i) {
    Thread& t = g_threads[i];
    enabled[i] = false;
    late[i] = false;
    if (t.exited) continue;
    if (IsEnabled(t)) {
      enabled[i] = true;
    } else if (IsTimeable(t)) {
      if (t.pending.deadline <= g_now) {
        enabled[i] = true;
      } else {
        late[i] = true;
      }
    }
  }
  if (self_live && enabled[self->id]) {
    bool others = false;
    for (int i = 0; i < g_thread_count; ++i) {
      if (i != self->id && enabled[i]) others = true;
    }
    if (!self->yielding || !others) {
      zero[nzero++] = {self, false};
      self_enabled = true;
    }
  }
  for (int i = 0; i < g_thread_count; ++i) {
    if (!enabled[i] || (self_live && i == self->id)) continue;
    if (self_enabled && !self->yielding) {
      one[none++] = {&g_threads[i], false};
    } else {
      zero[nzero++] = {&g_threads[i], false};
    }
  }
  {
    // By deadline, then by id.
    int order[kMaxThreads], n = 0;
    for (int i = 0; i < g_thread_count; ++i) {
      if (late[i]) order[n++] = i;
    }
    std::sort(order, order + n, [](int a, int b) {
      auto const da = g_threads[a].pending.deadline;
      auto const db = g_threads[b].pending.deadline;
      return da < db || (da == db && a < b);
    });
    for (int k = 0; k < n; ++k) {
      if (nzero == 0) {
        zero[nzero++] = {&g_threads[order[k]], true};
      } else {
        one[none++] = {&g_threads[order[k]], true};
      }
    }
  }
  if (nzero + none == 0) {
    bool all_exited = true;
    for (int i = 0; i < g_thread_count; ++i) {
      if (!g_threads[i].exited) all_exited = false;
    }
    if (all_exited) return nullptr;
    std::string s = "deadlock:";
    DescribeThreads(s);
    Fail(s);
  }
  int const c = TakeChoice(nzero + none, nzero, 0);
  Candidate const chosen = c < nzero ? zero[c] : one[c - nzero];
  Thread* const t = chosen.t;
  if (chosen.timeout) {
    g_now = std::max(g_now, t->pending.deadline);
  }
  t->timed_out = !IsEnabled(*t);
  if (g_trace) {
    fprintf(stderr, "  step %d: T%d %s%s (t=%lld ns)\n", g_steps, t->id,
            KindName(t->pending.kind), t->timed_out ? " [timed out]" : "",
            static_cast<long long>(g_now));
  }
  return t;
}

bool VisibleImpl(Kind const kind, void const* const object,
                 bool (*enabled)(void*), bool (*timeable)(void*), void* arg,
                 std::int64_t const deadline, bool const needs_point) {
  Thread* const self = t_self;
  ++self->internal;
  self->pending = {kind, object, enabled, timeable, arg, deadline};
  self->yielding = kind == Kind::kYield;
  // No choice to offer if the operation isn't a scheduling point, unless it
  // must block.
  if (needs_point || (enabled != nullptr && !enabled(arg))) {
    if (self->no_point > 0) {
      if (enabled != nullptr && !enabled(arg)) {
        Fail("blocking in a static initializer");
      }
      self->timed_out = false;
    } else {
      Thread* const next = PickNext(self);
      if (next != self) {
        g_current = next->id;
        Wake(next->go);
        WaitFor(self->go);
      }
    }
  } else {
    self->timed_out = false;
  }
  bool const result = !self->timed_out;
  --self->internal;
  return result;
}

bool Visible(Kind const kind, void const* const object, bool (*enabled)(void*),
             void* arg, std::int64_t const deadline) {
  Thread* const self = t_self;
  if (self == nullptr || !g_running) {
    if (enabled != nullptr && !enabled(arg)) {
      fprintf(stderr, "mc: blocking outside of an execution\n");
      ExitWith(80);
    }
    return true;
  }
  InternalScope scope;
  bool const shared = object == nullptr || IsShared(object);
  return VisibleImpl(kind, object, enabled, nullptr, arg, deadline, shared);
}

void ThreadExit(void* const p) {
  Thread* const t = static_cast<Thread*>(p);
  // Runs after the destruction of the thread-local variables.
  ++t->internal;
  t_self = t;
  ReleaseKey(reinterpret_cast<std::uintptr_t>(&t->exited));
  t->exited = true;
  t->pending.kind = Kind::kExit;
  Thread* const next = PickNext(t);
  t_self = nullptr;
  if (next == nullptr) {
    Wake(g_done);
  } else {
    g_current = next->id;
    Wake(next->go);
  }
}

void* Trampoline(void* const p) {
  Thread* const t = static_cast<Thread*>(p);
  pthread_setspecific(g_exit_key, t);
  WaitFor(t->go);
  t_self = t;
  t->started = true;
  try {
    if (t->body != nullptr) {
      t->body();
    } else {
      t->state->_M_run();
      t->state.reset();
    }
  } catch (std::exception const& e) {
    Fail(std::string("uncaught exception: ") + e.what());
  } catch (...) {
    Fail("uncaught exception");
  }
  return nullptr;
}

bool AlwaysTrue(void*) { return true; }
bool AlwaysFalse(void*) { return false; }

Thread* NewThread() {
  if (g_thread_count == kMaxThreads) { Fail("too many threads"); }
  Thread* const t = &g_threads[g_thread_count];
  t->id = g_thread_count;
  ++g_thread_count;
  t->created = true;
  t->started = t->exited = t->timed_out = t->detached = t->yielding = false;
  t->no_point = t->internal = 0;
  t->go.store(0);
  t->body = nullptr;
  memset(&t->vc, 0, sizeof t->vc);
  t->vc.c[t->id] = 1;
  t->pending = {Kind::kStart, nullptr, nullptr, nullptr, nullptr, kNever};
  return t;
}

void Launch(Thread* const t) {
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(
      &attr,
      reinterpret_cast<void*>(kStackBase + (2 * t->id + 1) * kStackSize),
      kStackSize);
  if (pthread_create(&t->pt, &attr, &Trampoline, t) != 0) {
    Fail("pthread_create failed");
  }
  pthread_attr_destroy(&attr);
}

void RecordOutcome() {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char const c : *g_outcome) { h = (h ^ c) * 1099511628211ull; }
  if (h == 0) h = 1;
  constexpr std::size_t n = sizeof(g_shared->outcomes) / sizeof(std::uint64_t);
  for (std::size_t i = h % n, k = 0; k < n; ++k, i = (i + 1) % n) {
    auto* const a =
        reinterpret_cast<std::atomic<std::uint64_t>*>(&g_shared->outcomes[i]);
    std::uint64_t expected = 0;
    if (a->compare_exchange_strong(expected, h)) {
      g_shared->outcome_count.fetch_add(1);
      int const s = g_shared->outcome_samples.fetch_add(1);
      if (s < 8) {
        strncpy(g_shared->outcome_sample[s], g_outcome->c_str(), 511);
      }
      return;
    }
    if (expected == h) return;
  }
}

void RunExecution() {
  ++g_generation;
  g_thread_count = 0;
  g_cost = 0;
  g_steps = 0;
  g_now = kEpochNs;
  g_clocks->clear();
  g_first_thread->clear();
  g_log->clear();
  g_outcome->clear();
  g_slot->trail_size = 0;
  if (g_live_blocks == 0) {
    g_arena_used = g_arena_base = 0;
  } else {
    g_shared->leaks.fetch_add(1);
    g_arena_base = g_arena_used = (g_arena_used + 4095) / 4096 * 4096;
    if (g_arena_used > kArenaSize / 2) {
      fprintf(stderr, "mc: the harness leaks too much memory\n");
      ExitWith(80);
    }
  }
  g_done.store(0);
  Thread* const t = NewThread();
  t->body = g_harness->body;
  g_current = 0;
  g_running = true;
  g_slot->busy.store(1);
  Launch(t);
  Wake(t->go);
  WaitFor(g_done);
  g_running = false;
  for (int i = 0; i < g_thread_count; ++i) {
    pthread_join(g_threads[i].pt, nullptr);
    g_threads[i].state.reset();
  }
  g_slot->busy.store(0);
  g_shared->executions.fetch_add(1, std::memory_order_relaxed);
  g_shared->points.fetch_add(g_slot->trail_size, std::memory_order_relaxed);
  if (static_cast<std::uint64_t>(g_slot->trail_size) >
      g_shared->max_points.load()) {
    g_shared->max_points.store(g_slot->trail_size);
  }
  if (static_cast<std::uint64_t>(g_thread_count) >
      g_shared->max_threads.load()) {
    g_shared->max_threads.store(g_thread_count);
  }
  RecordOutcome();
}

// Moves the trail to the next unexplored leaf; false iff done.
bool Backtrack(int const limit) {
  Slot& s = *g_slot;
  int n = std::min(s.trail_size, limit);
  // Costs before each point.
  static std::vector<int> cost;
  cost.assign(n + 1, 0);
  for (int i = 0; i < n; ++i) {
    Point const& p = s.trail[i];
    cost[i + 1] = cost[i] + (p.kind == 0 && p.choice >= p.zero ? 1 : 0);
  }
  for (int i = n - 1; i >= s.trail_base; --i) {
    Point& p = s.trail[i];
    int const next = p.choice + 1;
    if (next >= p.n) continue;
    int const extra = p.kind == 0 && next >= p.zero ? 1 : 0;
    if (cost[i] + extra > g_bound) continue;
    p.choice = next;
    s.replay_size = i + 1;
    return true;
  }
  return false;
}

void OnSignal(int const sig) {
  char b[200];
  snprintf(b, sizeof b, "crash: signal %d (%s) in T%d", sig, strsignal(sig),
           t_self ? t_self->id : -1);
  if (g_slot->message[0] == 0) SetMessage(b);
  if (g_trace) { fprintf(stderr, "%s\n", b); }
  _exit(77);
}

void ChildSetup(int const cpu) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  cpu_set_t set, allowed;
  CPU_ZERO(&set);
  sched_getaffinity(0, sizeof allowed, &allowed);
  int const n = CPU_COUNT(&allowed);
  int want = cpu % (n > 0 ? n : 1);
  for (int i = 0; i < CPU_SETSIZE; ++i) {
    if (CPU_ISSET(i, &allowed) && want-- == 0) {
      CPU_SET(i, &set);
      sched_setaffinity(0, sizeof set, &set);
      break;
    }
  }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char altstack[1 << 16];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    struct sigaction sa{};
    sa.sa_handler = &OnSignal;
    sa.sa_flags = SA_NODEFER;
    sigaction(sig, &sa, nullptr);
  }
  auto const map = [](std::uintptr_t a, std::size_t n) {
    void* const p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                             MAP_FIXED_NOREPLACE,
                         -1, 0);
    if (p != reinterpret_cast<void*>(a)) {
      fprintf(stderr, "mc: cannot map %lx\n", static_cast<unsigned long>(a));
      ExitWith(80);
    }
  };
  map(kArenaBase, kArenaSize);
  map(kStackBase, 2 * (kMaxThreads + 1) * kStackSize);
  g_poison = static_cast<std::uint8_t*>(
      mmap(nullptr, kArenaSize / 64, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_cells = static_cast<Cell*>(
      mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_clocks = new std::unordered_map<std::uintptr_t, Clock>;
  g_first_thread = new std::unordered_map<std::uint64_t, int>;
  g_log = new std::vector<Event>;
  g_outcome = new std::string;
  pthread_key_create(&g_exit_key, &ThreadExit);
}

[[noreturn]] void WorkerMain(int const slot, int const cpu) {
  g_slot = &g_shared->slots[slot];
  ChildSetup(cpu);
  Slot& s = *g_slot;
  if (s.have_work) {
    // Respawned after a truncated execution.
    g_shared->truncated.fetch_add(1);
    s.have_work = Backtrack(1 << 30);
  }
  while (g_shared->stop.load() == 0) {
    if (!s.have_work) {
      int const i = g_shared->next_prefix.fetch_add(1);
      if (i >= g_shared->prefix_count) ExitWith(0);
      int const b = g_shared->prefix_start[i], e = g_shared->prefix_start[i + 1];
      memcpy(s.trail, g_shared->prefix_data + b, (e - b) * sizeof(Point));
      s.trail_size = s.replay_size = s.trail_base = e - b;
      s.have_work = 1;
    }
    RunExecution();
    s.have_work = Backtrack(1 << 30);
  }
  ExitWith(76);  // Stopped before completion.
}

// Enumerates the prefixes of length `limit`.
[[noreturn]] void EnumeratorMain(int const limit) {
  g_slot = &g_shared->slots[0];
  ChildSetup(0);
  Slot& s = *g_slot;
  s.trail_size = s.replay_size = s.trail_base = 0;
  g_shared->prefix_count = 0;
  g_shared->prefix_start[0] = 0;
  for (;;) {
    RunExecution();
    int const n = std::min(limit, s.trail_size);
    int const i = g_shared->prefix_count;
    int const b = g_shared->prefix_start[i];
    if (i >= 4000 || b + n > (1 << 20)) ExitWith(75);
    memcpy(g_shared->prefix_data + b, s.trail, n * sizeof(Point));
    g_shared->prefix_start[i + 1] = b + n;
    ++g_shared->prefix_count;
    if (!Backtrack(limit)) ExitWith(0);
  }
}

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Report {
  bool violation = false;
  std::string message;
  std::vector<Point> trail;
  bool error = false;
};

// Returns true iff the child exited normally with `code`, within the time.
int WaitChild(pid_t const pid, Slot& slot, double const hang_s,
              bool& hung) {
  std::uint64_t last = slot.heartbeat.load();
  double since = Now();
  for (;;) {
    int status;
    pid_t const r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      if (WIFEXITED(status)) return WEXITSTATUS(status);
      return 1000 + WTERMSIG(status);
    }
    usleep(500);
    std::uint64_t const now = slot.heartbeat.load();
    if (now != last) {
      last = now;
      since = Now();
    } else if (Now() - since > hang_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hung = true;
      return 2000;
    }
  }
}

// One execution that replays the given trail, then default choices.
int ReplayOnce(std::vector<Point> const& trail, bool const trace,
               std::string& message, int& size) {
  Slot& s = g_shared->slots[0];
  for (std::size_t i = 0; i < trail.size(); ++i) s.trail[i] = trail[i];
  s.trail_base = 0;
  s.message[0] = 0;
  pid_t const pid = fork();
  if (pid == 0) {
    g_slot = &g_shared->slots[0];
    g_slot->replay_size = trail.size();
    g_trace = trace;
    ChildSetup(0);
    RunExecution();
    ExitWith(0);
  }
  bool hung = false;
  int const code = WaitChild(pid, s, 60, hung);
  message = s.message;
  if (hung) message = "hang: no progress for 60 s";
  if (code >= 1000 && !hung) message = "killed by a signal";
  size = s.trail_size;
  return code;
}

bool IsViolation(int const code) {
  return code == 77 || code >= 1000;
}

struct Result {
  std::uint64_t executions = 0, transitions = 0, points = 0;
  int bound_completed = -1;
  bool exhausted = false;  // Nothing more at larger bounds.
  bool capped = false;
};

Report CollectViolation(int const slot, int const code, bool const hung) {
  Report r;
  Slot& s = g_shared->slots[slot];
  std::vector<Point> trail(s.trail, s.trail + s.trail_size);
  std::string const first_message = hung ? "hang" : s.message;
  // Replay before report, twice.
  std::string m1, m2;
  int n1, n2;
  int const c1 = ReplayOnce(trail, false, m1, n1);
  int const c2 = ReplayOnce(trail, false, m2, n2);
  if (IsViolation(c1) && IsViolation(c2)) {
    r.violation = true;
    r.message = m1.empty() ? first_message : m1;
    r.trail = trail;
  } else {
    fprintf(stderr,
            "mc: a violation did not replay: code %d '%s', then %d '%s' and "
            "%d '%s'\n",
            code, first_message.c_str(), c1, m1.c_str(), c2, m2.c_str());
    r.error = true;
  }
  return r;
}

Report RunPhase(int const jobs, double const deadline, Result& result) {
  Shared& sh = *g_shared;
  sh.stop.store(0);
  sh.learned.size.store(0);
  // Enumerate prefixes.
  int last_ok = 0;
  for (int limit = 1;;) {
    Slot& s = sh.slots[0];
    s.message[0] = 0;
    s.trail_size = 0;
    pid_t const pid = fork();
    if (pid == 0) EnumeratorMain(limit);
    bool hung = false;
    int const code = WaitChild(pid, s, 30, hung);
    if (code == 75) {
      // Too many prefixes: go back to the last length that worked.
      if (last_ok == 0) {
        Report r;
        r.error = true;
        return r;
      }
      limit = last_ok;
      continue;
    }
    if (IsViolation(code)) return CollectViolation(0, code, hung);
    if (code != 0) {
      fprintf(stderr, "mc: enumerator exited with %d: %s\n", code, s.message);
      Report r;
      r.error = true;
      return r;
    }
    if (sh.prefix_count >= 16 * jobs || limit > 300 || limit == last_ok) break;
    last_ok = limit;
    limit += limit < 16 ? 3 : limit / 2;
  }
  sh.next_prefix.store(0);
  std::vector<pid_t> pids(jobs, -1);
  auto const spawn = [&](int i) {
    pid_t const pid = fork();
    if (pid == 0) WorkerMain(i, i);
    pids[i] = pid;
  };
  std::vector<std::uint64_t> last(jobs, 0);
  std::vector<double> since(jobs, Now());
  for (int i = 0; i < jobs; ++i) {
    sh.slots[i].have_work = 0;
    sh.slots[i].message[0] = 0;
    spawn(i);
  }
  int alive = jobs;
  Report report;
  bool found = false;
  int bad_slot = -1, bad_code = 0;
  bool bad_hung = false;
  bool incomplete = false;
  while (alive > 0) {
    bool progress = false;
    for (int i = 0; i < jobs; ++i) {
      if (pids[i] < 0) continue;
      int status;
      pid_t const r = waitpid(pids[i], &status, WNOHANG);
      if (r == pids[i]) {
        progress = true;
        int const code =
            WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
        pids[i] = -1;
        --alive;
        if (code == 78 && !found) {
          spawn(i);
          ++alive;
          since[i] = Now();
        } else if (IsViolation(code) && !found) {
          found = true;
          bad_slot = i;
          bad_code = code;
          sh.stop.store(1);
        } else if (code == 76) {
          incomplete = true;
        } else if (code != 0 && !found) {
          fprintf(stderr, "mc: worker exited with %d: %s\n", code,
                  sh.slots[i].message);
          report.error = true;
          sh.stop.store(1);
        }
        continue;
      }
      std::uint64_t const h = sh.slots[i].heartbeat.load();
      if (h != last[i]) {
        last[i] = h;
        since[i] = Now();
      } else if (Now() - since[i] > 30) {
        kill(pids[i], SIGKILL);
        waitpid(pids[i], &status, 0);
        pids[i] = -1;
        --alive;
        if (!found) {
          found = true;
          bad_slot = i;
          bad_hung = true;
          sh.stop.store(1);
        }
      }
    }
    if (Now() > deadline) {
      sh.stop.store(1);
    }
    if (!progress) usleep(1000);
  }
  if (found) {
    // Copy the trail: replays use slot 0.
    if (bad_slot != 0) {
      memcpy(sh.slots[0].trail, sh.slots[bad_slot].trail,
             sizeof(sh.slots[0].trail));
      sh.slots[0].trail_size = sh.slots[bad_slot].trail_size;
      memcpy(sh.slots[0].message, sh.slots[bad_slot].message, 4096);
    }
    return CollectViolation(0, bad_code, bad_hung);
  }
  if (incomplete) result.capped = true;
  return report;
}

std::string JsonEscape(std::string const& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

void WriteReplay(std::string const& path, Report const& r, int const bound) {
  FILE* f = fopen(path.c_str(), "w");
  if (f == nullptr) return;
  fprintf(f, "harness %s\nbound %d\nmessage %s\n", g_harness->name.c_str(),
          bound, r.message.c_str());
  fprintf(f, "shared %zu", g_frozen->size());
  for (auto k : *g_frozen) fprintf(f, " %llu", (unsigned long long)k);
  fprintf(f, "\ntrail %zu", r.trail.size());
  for (auto const& p : r.trail) {
    fprintf(f, " %d/%d/%d/%d", p.choice, p.n, p.zero, p.kind);
  }
  fprintf(f, "\n");
  fclose(f);
}

int Main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string only, out, replay, replay_out = "replay.txt";
  int jobs = 8;
  bool thorough = false;
  double time_limit = 60;
  int bound_override = -1;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const next = [&] { return std::string(argv[++i]); };
    if (a == "--harness") only = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--time") time_limit = atof(next().c_str());
    else if (a == "--bound") bound_override = atoi(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--all-visible") g_all_visible = true;
    else if (a == "--list") {
      for (auto& h : Harnesses()) printf("%s\n", h.name.c_str());
      return 0;
    }
  }
  g_shared = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_frozen = new std::unordered_set<std::uint64_t>;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) return 80;
    char name[256];
    int bound;
    char line[8192];
    size_t n;
    if (fscanf(f, "harness %255s\nbound %d\n", name, &bound) != 2) return 80;
    if (!fgets(line, sizeof line, f)) return 80;
    printf("recorded: %s", line);
    if (fscanf(f, "shared %zu", &n) != 1) return 80;
    for (size_t i = 0; i < n; ++i) {
      unsigned long long k;
      if (fscanf(f, " %llu", &k) != 1) return 80;
      g_frozen->insert(k);
    }
    if (fscanf(f, "\ntrail %zu", &n) != 1) return 80;
    std::vector<Point> trail(n);
    for (auto& p : trail) {
      int c, m, z, k;
      if (fscanf(f, " %d/%d/%d/%d", &c, &m, &z, &k) != 4) return 80;
      p = {(std::uint16_t)c, (std::uint16_t)m, (std::uint16_t)z,
           (std::uint16_t)k};
    }
    for (auto& h : Harnesses()) {
      if (h.name == name) g_harness = &h;
    }
    if (!g_harness) return 80;
    std::string m;
    int size;
    int const code = ReplayOnce(trail, true, m, size);
    printf("replay: code %d %s\n", code, m.c_str());
    return IsViolation(code) ? 1 : 0;
  }
  FILE* const o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"harnesses\": [\n");
  fflush(o);
  int selected = 0, index = 0;
  for (auto& h : Harnesses()) {
    if (only.empty() || only == h.name) ++selected;
  }
  double const global_deadline = Now() + time_limit;
  int rc = 0;
  for (auto& h : Harnesses()) {
    if (!only.empty() && only != h.name) continue;
    g_harness = &h;
    double const start = Now();
    double const deadline =
        Now() + (global_deadline - Now()) / (selected - index);
    ++index;
    g_frozen->clear();
    Shared& sh = *g_shared;
    sh.executions = sh.transitions = sh.points = sh.truncated = sh.leaks = 0;
    sh.max_points = sh.max_threads = 0;
    sh.reached = 0;
    sh.outcome_count = 0;
    sh.outcome_samples = 0;
    memset(sh.outcomes, 0, sizeof sh.outcomes);
    memset(sh.outcome_sample, 0, sizeof sh.outcome_sample);
    int const max_bound =
        bound_override >= 0
            ? bound_override
            : (thorough ? h.options.thorough_preemptions
                        : h.options.preemptions);
    int completed = -1;
    bool capped = false;
    Report report;
    std::uint64_t final_executions = 0, final_transitions = 0, final_points = 0;
    for (g_bound = 0; g_bound <= max_bound; ++g_bound) {
      bool stable = false;
      while (!stable) {
        std::uint64_t const e0 = sh.executions, t0 = sh.transitions,
                            p0 = sh.points;
        Result result;
        report = RunPhase(jobs, deadline, result);
        final_executions = sh.executions - e0;
        final_transitions = sh.transitions - t0;
        final_points = sh.points - p0;
        if (report.violation || report.error) break;
        if (result.capped) {
          capped = true;
          break;
        }
        int const n = std::min(sh.learned.size.load(), kMaxShared);
        stable = true;
        for (int i = 0; i < n; ++i) {
          if (g_frozen->insert(sh.learned.key[i]).second) stable = false;
        }
        if (g_all_visible) stable = true;
      }
      if (report.violation || report.error || capped) break;
      completed = g_bound;
    }
    std::string replay_path;
    std::uint64_t const missing = h.options.must_reach & ~sh.reached;
    if (!report.violation && !report.error && !capped && missing != 0) {
      // What the property says must be possible isn't, in any schedule.
      report.violation = true;
      report.message = "situation " + std::to_string(__builtin_ctzll(missing)) +
                       " is not reached by any of the schedules explored";
      replay_path = replay_out;
      if (FILE* const f = fopen(replay_path.c_str(), "w")) {
        fprintf(f, "unreachable %s %s\n", h.name.c_str(),
                report.message.c_str());
        fclose(f);
      }
      rc = 1;
    } else if (report.violation) {
      replay_path = replay_out;
      WriteReplay(replay_path, report, g_bound);
      rc = 1;
    } else if (report.error && rc == 0) {
      rc = 2;
    }
    fprintf(o,
            "%s{\"name\": \"%s\", \"executions\": %llu, \"transitions\": %llu, "
            "\"choice_points\": %llu, \"last_phase_executions\": %llu, "
            "\"last_phase_transitions\": %llu, \"last_phase_points\": %llu, "
            "\"outcomes\": %d, \"bound\": %d, "
            "\"bound_completed\": %d, \"capped\": %s, \"truncated\": %llu, "
            "\"leaks\": %llu, \"max_points\": %llu, \"max_threads\": %llu, "
            "\"shared_objects\": %zu, \"wall_s\": %.3f, "
            "\"violation\": %s, \"error\": %s, \"message\": \"%s\", "
            "\"replay\": \"%s\", \"samples\": [",
            index == 1 ? "" : ",\n", h.name.c_str(),
            (unsigned long long)sh.executions,
            (unsigned long long)sh.transitions, (unsigned long long)sh.points,
            (unsigned long long)final_executions,
            (unsigned long long)final_transitions,
            (unsigned long long)final_points, sh.outcome_count.load(),
            max_bound, completed, capped ? "true" : "false",
            (unsigned long long)sh.truncated, (unsigned long long)sh.leaks,
            (unsigned long long)sh.max_points,
            (unsigned long long)sh.max_threads, g_frozen->size(),
            Now() - start, report.violation ? "true" : "false",
            report.error ? "true" : "false",
            JsonEscape(report.message).c_str(),
            JsonEscape(replay_path).c_str());
    int const ns = std::min(8, sh.outcome_samples.load());
    for (int i = 0; i < ns; ++i) {
      fprintf(o, "%s\"%s\"", i ? ", " : "",
              JsonEscape(sh.outcome_sample[i]).c_str());
    }
    fprintf(o, "]}");
    fflush(o);
    if (rc == 1) break;
  }
  fprintf(o, "\n]}\n");
  if (o != stdout) fclose(o);
  return rc;
}

}  // namespace internal

// --------------------------------------------------------------- Harness API

Registrar::Registrar(char const* const name, void (*body)(), Options options) {
  internal::Harnesses().push_back({name, body, options});
}

int Choose(int const n) {
  if (!t_self) return 0;
  InternalScope scope;
  return TakeChoice(n, n, 1);
}

void Observe(std::string const& what) {
  if (!t_self) return;
  InternalScope scope;
  *g_outcome += what;
  *g_outcome += ' ';
}

void Point(char const*) {
  if (!t_self) return;
  VisibleImpl(Kind::kPoint, nullptr, nullptr, nullptr, nullptr, kNever, true);
}

std::int64_t NowNs() { return g_now; }
bool Active() { return t_self != nullptr; }
int ThreadId() { return t_self ? t_self->id : -1; }

bool Exited(int const thread_id) {
  return thread_id < g_thread_count && g_threads[thread_id].exited;
}

void Reach(int const situation) {
  g_shared->reached |= 1ull << situation;
}

void Log(int tag, std::int64_t a, std::int64_t b) {
  if (!t_self) return;
  InternalScope scope;
  g_log->push_back({t_self->id, tag, a, b, g_now});
}
int LogSize() { return g_log->size(); }
Event LogAt(int i) { return (*g_log)[i]; }

void BlockUntil(std::function<bool()> const& f) {
  if (!t_self) return;
  VisibleImpl(
      Kind::kBlock, nullptr,
      [](void* p) { return (*static_cast<std::function<bool()> const*>(p))(); },
      nullptr, const_cast<std::function<bool()>*>(&f), kNever, true);
}

}  // namespace mc

using namespace mc::internal;

// ---------------------------------------------------------------- absl::Mutex

namespace absl {

static std::uintptr_t WriterKey(void const* m) {
  return reinterpret_cast<std::uintptr_t>(m);
}
static std::uintptr_t ReaderKey(void const* m) {
  return reinterpret_cast<std::uintptr_t>(m) + 1;
}
static int Self() { return mc::internal::t_self ? mc::internal::t_self->id : 30; }

struct Mutex::Waiter {
  Mutex* mu;
  Condition const* cond;
  bool reader;
};

static Mutex const* evaluating_mutex = nullptr;

bool Mutex::CanLock(void* p) {
  auto* const m = static_cast<Mutex*>(p);
  return m->writer_ == -1 && m->readers_ == 0;
}
bool Mutex::CanReaderLock(void* p) {
  return static_cast<Mutex*>(p)->writer_ == -1;
}
bool Mutex::CanAwait(void* p) {
  auto* const w = static_cast<Waiter*>(p);
  if (!(w->reader ? CanReaderLock(w->mu) : CanLock(w->mu))) { return false; }
  if (w->cond == nullptr) { return true; }
  // The condition is evaluated as if the mutex was held.
  evaluating_mutex = w->mu;
  bool const result = w->cond->Eval();
  evaluating_mutex = nullptr;
  return result;
}

Mutex::~Mutex() {
  if (mc::internal::t_self == nullptr) return;
  if (writer_ != -1 || readers_ != 0) {
    mc::Fail("destruction of a mutex that is held");
  }
  // Destruction is a write for race detection purposes.
  Access(this, sizeof(*this), 1, __builtin_return_address(0));
  Forget(this);
}

void Mutex::Taken(bool const reader) {
  InternalScope scope;
  AcquireKey(WriterKey(this));
  if (reader) {
    readers_ |= 1u << Self();
  } else {
    AcquireKey(ReaderKey(this));
    writer_ = Self();
  }
}

void Mutex::Lock() {
  if (mc::internal::t_self == nullptr) { writer_ = 30; return; }
  Access(this, 4, 2, __builtin_return_address(0));
  if (writer_ == Self()) mc::Fail("deadlock: recursive lock of a mutex");
  Visible(Kind::kLock, this, &CanLock, this);
  Taken(false);
}
bool Mutex::TryLock() {
  if (mc::internal::t_self == nullptr) { writer_ = 30; return true; }
  Visible(Kind::kLock, this, nullptr, nullptr);
  if (!CanLock(this)) return false;
  Taken(false);
  return true;
}
void Mutex::Unlock() {
  if (mc::internal::t_self == nullptr) { writer_ = -1; return; }
  Access(this, 4, 2, __builtin_return_address(0));
  if (writer_ != Self()) mc::Fail("unlocking a mutex that is not held");
  InternalScope scope;
  writer_ = -1;
  ReleaseStoreKey(WriterKey(this));
}
void Mutex::ReaderLock() {
  if (mc::internal::t_self == nullptr) { return; }
  Access(this, 4, 2, __builtin_return_address(0));
  if (writer_ == Self() || (readers_ & (1u << Self()))) {
    mc::Fail("deadlock: recursive reader lock of a mutex");
  }
  Visible(Kind::kReaderLock, this, &CanReaderLock, this);
  Taken(true);
}
void Mutex::ReaderUnlock() {
  if (mc::internal::t_self == nullptr) { return; }
  Access(this, 4, 2, __builtin_return_address(0));
  if (!(readers_ & (1u << Self()))) {
    mc::Fail("reader-unlocking a mutex that is not reader-held");
  }
  InternalScope scope;
  readers_ &= ~(1u << Self());
  ReleaseKey(ReaderKey(this));
}
void Mutex::AssertHeld() const {
  if (mc::internal::t_self != nullptr && writer_ != Self() &&
      evaluating_mutex != this) {
    mc::Fail("AssertHeld failed");
  }
}
void Mutex::AssertReaderHeld() const {
  if (mc::internal::t_self != nullptr && writer_ != Self() &&
      evaluating_mutex != this && !(readers_ & (1u << Self()))) {
    mc::Fail("AssertReaderHeld failed");
  }
}

bool Mutex::LockWhenImpl(Condition const& cond, std::int64_t const deadline,
                         bool const reader) {
  if (mc::internal::t_self == nullptr) { return cond.Eval(); }
  Access(this, 4, 2, __builtin_return_address(0));
  if (writer_ == Self() || (readers_ & (1u << Self()))) {
    mc::Fail("deadlock: recursive lock of a mutex");
  }
  Waiter w{this, &cond, reader};
  bool shared;
  {
    InternalScope scope;
    shared = IsShared(this);
  }
  bool const ok = VisibleImpl(
      Kind::kAwait, this, &CanAwait,
      [](void* p) {
        auto* const w = static_cast<Waiter*>(p);
        return w->reader ? CanReaderLock(w->mu) : CanLock(w->mu);
      },
      &w, deadline, shared);
  Taken(reader);
  return ok;
}
bool Mutex::AwaitImpl(Condition const& cond, std::int64_t const deadline) {
  bool const reader = writer_ != Self();
  // Await returns immediately if the condition holds.
  {
    InternalScope scope;
    if (cond.Eval()) return true;
  }
  if (reader) ReaderUnlock(); else Unlock();
  return LockWhenImpl(cond, deadline, reader);
}
void Mutex::Await(Condition const& cond) { AwaitImpl(cond, kNever); }
bool Mutex::AwaitWithTimeout(Condition const& cond, absl::Duration timeout) {
  return AwaitImpl(cond, mc_internal::Deadline(timeout));
}
bool Mutex::AwaitWithDeadline(Condition const& cond, absl::Time deadline) {
  return AwaitImpl(cond, mc_internal::Deadline(deadline));
}
void Mutex::LockWhen(Condition const& cond) {
  LockWhenImpl(cond, kNever, false);
}
bool Mutex::LockWhenWithTimeout(Condition const& cond, absl::Duration timeout) {
  return LockWhenImpl(cond, mc_internal::Deadline(timeout), false);
}
void Mutex::ReaderLockWhen(Condition const& cond) {
  LockWhenImpl(cond, kNever, true);
}
bool Mutex::ReaderLockWhenWithTimeout(Condition const& cond,
                                      absl::Duration timeout) {
  return LockWhenImpl(cond, mc_internal::Deadline(timeout), true);
}

namespace {
struct CvWaiter {
  Mutex* mu;
  std::uint64_t const* served;
  std::uint64_t ticket;
};
}  // namespace
bool CondVar::WaitImpl(Mutex* mu, std::int64_t deadline) {
  CvWaiter w{mu, &served_, next_++};
  mu->Unlock();
  bool const ok = VisibleImpl(
      Kind::kAwait, this,
      [](void* p) {
        auto* const w = static_cast<CvWaiter*>(p);
        return *w->served > w->ticket;
      },
      nullptr, &w, deadline, true);
  Acquire(this);
  mu->Lock();
  return !ok;
}
void CondVar::Signal() {
  Visible(Kind::kNotify, this, nullptr, nullptr);
  Release(this);
  if (served_ < next_) ++served_;
}
void CondVar::SignalAll() {
  Visible(Kind::kNotify, this, nullptr, nullptr);
  Release(this);
  served_ = next_;
}

// --------------------------------------------------------- absl::Notification

Notification::~Notification() {
  if (mc::internal::t_self == nullptr) return;
  Access(this, sizeof(*this), 1, __builtin_return_address(0));
  Forget(this);
}
bool Notification::HasBeenNotified() const {
  Access(this, 1, 2, __builtin_return_address(0));
  Visible(Kind::kPoint, this, nullptr, nullptr);
  if (notified_) Acquire(this);
  return notified_;
}
bool Notification::Wait(std::int64_t const deadline) const {
  Access(this, 1, 2, __builtin_return_address(0));
  bool const ok = Visible(
      Kind::kNotifyWait, this,
      [](void* p) { return *static_cast<bool const*>(p); },
      const_cast<bool*>(&notified_), deadline);
  if (ok) Acquire(this);
  return ok;
}
void Notification::WaitForNotification() const { Wait(kNever); }
bool Notification::WaitForNotificationWithTimeout(
    absl::Duration const timeout) const {
  return Wait(mc_internal::Deadline(timeout));
}
bool Notification::WaitForNotificationWithDeadline(
    absl::Time const deadline) const {
  return Wait(mc_internal::Deadline(deadline));
}
void Notification::Notify() {
  Access(this, 1, 2, __builtin_return_address(0));
  Visible(Kind::kNotify, this, nullptr, nullptr);
  if (notified_) mc::Fail("a notification is notified twice");
  notified_ = true;
  Release(this);
}

}  // namespace absl

// ------------------------------------------------------------------ std::thread

namespace std {

void thread::_M_start_thread(_State_ptr state, void (*)()) {
  if (mc::internal::t_self == nullptr) {
    fprintf(stderr, "mc: thread started outside of an execution\n");
    ExitWith(80);
  }
  InternalScope scope;
  Thread* const self = mc::internal::t_self;
  Thread* const t = NewThread();
  t->state = std::move(state);
  t->vc.Join(self->vc);
  ++self->vc.c[self->id];
  Launch(t);
  _M_id = id(t->pt);
}

static Thread* FindThread(pthread_t const pt) {
  for (int i = g_thread_count - 1; i >= 0; --i) {
    if (g_threads[i].pt == pt && !g_threads[i].detached) {
      return &g_threads[i];
    }
  }
  return nullptr;
}

void thread::join() {
  if (!joinable()) mc::Fail("join of a thread that is not joinable");
  Thread* const t = FindThread(native_handle());
  if (t == mc::internal::t_self) mc::Fail("deadlock: a thread joins itself");
  VisibleImpl(
      Kind::kJoin, t, [](void* p) { return static_cast<Thread*>(p)->exited; },
      nullptr, t, kNever, !t->exited);
  {
    InternalScope scope;
    AcquireKey(reinterpret_cast<std::uintptr_t>(&t->exited));
  }
  t->detached = true;
  _M_id = id();
}

void thread::detach() {
  if (!joinable()) mc::Fail("detach of a thread that is not joinable");
  FindThread(native_handle())->detached = true;
  _M_id = id();
}

namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  if (mc::internal::t_self == nullptr) {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec));
  }
  return time_point(nanoseconds(g_now));
}
system_clock::time_point system_clock::now() noexcept {
  if (mc::internal::t_self == nullptr) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec));
  }
  return time_point(nanoseconds(g_now));
}
}  // namespace _V2
}  // namespace chrono

namespace {
struct FutexWaiter {
  unsigned* addr;
  unsigned val;
};
bool FutexReady(void* p) {
  auto* const w = static_cast<FutexWaiter*>(p);
  return *w->addr != w->val;
}
bool FutexWait(unsigned* addr, unsigned val, bool has_timeout,
               std::int64_t deadline) {
  FutexWaiter w{addr, val};
  return VisibleImpl(Kind::kFutex, addr, &FutexReady, nullptr, &w,
                     has_timeout ? deadline : kNever, true);
}
}  // namespace

bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  return FutexWait(addr, val, has_timeout,
                   chrono::nanoseconds(s).count() + ns.count());
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  return FutexWait(addr, val, has_timeout,
                   chrono::nanoseconds(s).count() + ns.count());
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}

}  // namespace std

extern "C" {

int nanosleep(timespec const* const req, timespec*) {
  if (mc::internal::t_self == nullptr) {
    return clock_nanosleep(CLOCK_MONOTONIC, 0, req, nullptr);
  }
  std::int64_t const d = req->tv_sec * 1'000'000'000ll + req->tv_nsec;
  VisibleImpl(Kind::kSleep, nullptr, &AlwaysFalse, nullptr, nullptr,
              g_now + d, true);
  return 0;
}

int sched_yield() {
  if (mc::internal::t_self == nullptr) {
    return syscall(SYS_sched_yield);
  }
  VisibleImpl(Kind::kYield, nullptr, nullptr, nullptr, nullptr, kNever, true);
  return 0;
}

int pthread_once(pthread_once_t* const control, void (*routine)(void)) {
  // 0: not run; 1: running; 2: done.
  auto* const c = reinterpret_cast<std::atomic<int>*>(control);
  if (mc::internal::t_self == nullptr) {
    int expected = 0;
    if (c->compare_exchange_strong(expected, 1)) {
      routine();
      c->store(2);
    } else {
      while (c->load() != 2) syscall(SYS_sched_yield);
    }
    return 0;
  }
  Visible(Kind::kOnce, control, [](void* p) {
    return static_cast<std::atomic<int>*>(p)->load() != 1; }, control);
  if (c->load() == 0) {
    c->store(1);
    try {
      routine();
    } catch (...) {
      c->store(0);
      throw;
    }
    c->store(2);
    Release(control);
  } else {
    Acquire(control);
  }
  return 0;
}

// Static initialization is not interleaved.
int __cxa_guard_acquire(std::uint64_t* g) {
  auto* const b = reinterpret_cast<std::uint8_t*>(g);
  if (b[0]) {
    if (mc::internal::t_self) Acquire(g);
    return 0;
  }
  if (mc::internal::t_self) ++mc::internal::t_self->no_point;
  return 1;
}
void __cxa_guard_release(std::uint64_t* g) {
  reinterpret_cast<std::uint8_t*>(g)[0] = 1;
  if (mc::internal::t_self) Release(g);
  if (mc::internal::t_self) --mc::internal::t_self->no_point;
}
void __cxa_guard_abort(std::uint64_t* g) {
  if (mc::internal::t_self) --mc::internal::t_self->no_point;
}

// ------------------------------------------------------------- Instrumentation

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { Access(p, 1, 0, PC); }
void __tsan_read2(void* p) { Access(p, 2, 0, PC); }
void __tsan_read4(void* p) { Access(p, 4, 0, PC); }
void __tsan_read8(void* p) { Access(p, 8, 0, PC); }
void __tsan_read16(void* p) { Access(p, 16, 0, PC); }
void __tsan_write1(void* p) { Access(p, 1, 1, PC); }
void __tsan_write2(void* p) { Access(p, 2, 1, PC); }
void __tsan_write4(void* p) { Access(p, 4, 1, PC); }
void __tsan_write8(void* p) { Access(p, 8, 1, PC); }
void __tsan_write16(void* p) { Access(p, 16, 1, PC); }
void __tsan_read_write1(void* p) { Access(p, 1, 1, PC); }
void __tsan_read_write2(void* p) { Access(p, 2, 1, PC); }
void __tsan_read_write4(void* p) { Access(p, 4, 1, PC); }
void __tsan_read_write8(void* p) { Access(p, 8, 1, PC); }
void __tsan_read_write16(void* p) { Access(p, 16, 1, PC); }
void __tsan_unaligned_read2(void* p) { Access(p, 2, 0, PC); }
void __tsan_unaligned_read4(void* p) { Access(p, 4, 0, PC); }
void __tsan_unaligned_read8(void* p) { Access(p, 8, 0, PC); }
void __tsan_unaligned_read16(void* p) { Access(p, 16, 0, PC); }
void __tsan_unaligned_write2(void* p) { Access(p, 2, 1, PC); }
void __tsan_unaligned_write4(void* p) { Access(p, 4, 1, PC); }
void __tsan_unaligned_write8(void* p) { Access(p, 8, 1, PC); }
void __tsan_unaligned_write16(void* p) { Access(p, 16, 1, PC); }
void __tsan_unaligned_read_write2(void* p) { Access(p, 2, 1, PC); }
void __tsan_unaligned_read_write4(void* p) { Access(p, 4, 1, PC); }
void __tsan_unaligned_read_write8(void* p) { Access(p, 8, 1, PC); }
void __tsan_unaligned_read_write16(void* p) { Access(p, 16, 1, PC); }
void __tsan_read_range(void* p, unsigned long n) { Access(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { Access(p, n, 1, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access(p, 8, 1, PC);
}
void* __tsan_memcpy(void* d, void const* s, unsigned long n) {
  if (n) { Access(s, n, 0, PC); Access(d, n, 1, PC); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, void const* s, unsigned long n) {
  if (n) { Access(s, n, 0, PC); Access(d, n, 1, PC); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  if (n) { Access(d, n, 1, PC); }
  return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

}  // extern "C"

namespace {
// Memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5
// seq_cst.
bool IsAcquire(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool IsRelease(int mo) { return mo >= 3; }

inline void BeforeAtomic(void const* p, std::size_t n, void* pc) {
  if (!t_self || !g_running || t_self->internal > 0) return;
  Access(p, n, 2, pc);
  Visible(Kind::kAtomic, p, nullptr, nullptr);
}
inline void AfterLoad(void const* p, int mo) {
  if (!t_self) return;
  if (IsAcquire(mo)) Acquire(p);
}
inline void AfterStore(void const* p, int mo) {
  if (!t_self) return;
  if (IsRelease(mo)) ReleaseStore(p); else Forget(p);
}
inline void AfterRmw(void const* p, int mo) {
  if (!t_self) return;
  if (IsAcquire(mo)) Acquire(p);
  if (IsRelease(mo)) Release(p);
}
}  // namespace

#define ATOMICS(bits, T)                                                       \
  extern "C" T __tsan_atomic##bits##_load(T const volatile* p, int mo) {       \
    BeforeAtomic(const_cast<T const*>(p), sizeof(T), PC);                      \
    T const v = *p;                                                            \
    AfterLoad(const_cast<T const*>(p), mo);                                    \
    return v;                                                                  \
  }                                                                            \
  extern "C" void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) {    \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    *p = v;                                                                    \
    AfterStore(const_cast<T*>(p), mo);                                         \
  }                                                                            \
  extern "C" T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo) {    \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    T const old = *p;                                                          \
    *p = v;                                                                    \
    AfterRmw(const_cast<T*>(p), mo);                                           \
    return old;                                                                \
  }                                                                            \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(                \
      T volatile* p, T* c, T v, int mo, int fmo) {                             \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    T const old = *p;                                                          \
    if (old == *c) {                                                           \
      *p = v;                                                                  \
      AfterRmw(const_cast<T*>(p), mo);                                         \
      return 1;                                                                \
    }                                                                          \
    *c = old;                                                                  \
    AfterLoad(const_cast<T*>(p), fmo);                                         \
    return 0;                                                                  \
  }                                                                            \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(                  \
      T volatile* p, T* c, T v, int mo, int fmo) {                             \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    T const old = *p;                                                          \
    if (old == *c) {                                                           \
      *p = v;                                                                  \
      AfterRmw(const_cast<T*>(p), mo);                                         \
      return 1;                                                                \
    }                                                                          \
    *c = old;                                                                  \
    AfterLoad(const_cast<T*>(p), fmo);                                         \
    return 0;                                                                  \
  }                                                                            \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val(                     \
      T volatile* p, T c, T v, int mo, int fmo) {                              \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    T const old = *p;                                                          \
    if (old == c) {                                                            \
      *p = v;                                                                  \
      AfterRmw(const_cast<T*>(p), mo);                                         \
    } else {                                                                   \
      AfterLoad(const_cast<T*>(p), fmo);                                       \
    }                                                                          \
    return old;                                                                \
  }
#define RMW(bits, T, name, expr)                                               \
  extern "C" T __tsan_atomic##bits##_fetch_##name(T volatile* p, T v,          \
                                                  int mo) {                    \
    BeforeAtomic(const_cast<T*>(p), sizeof(T), PC);                            \
    T const old = *p;                                                          \
    *p = expr;                                                                 \
    AfterRmw(const_cast<T*>(p), mo);                                           \
    return old;                                                                \
  }
#define ALL_ATOMICS(bits, T)           \
  ATOMICS(bits, T)                     \
  RMW(bits, T, add, old + v)           \
  RMW(bits, T, sub, old - v)           \
  RMW(bits, T, and, old & v)           \
  RMW(bits, T, or, old | v)            \
  RMW(bits, T, xor, old ^ v)           \
  RMW(bits, T, nand, ~(old & v))
ALL_ATOMICS(8, std::uint8_t)
ALL_ATOMICS(16, std::uint16_t)
ALL_ATOMICS(32, std::uint32_t)
ALL_ATOMICS(64, std::uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ Allocation

void* operator new(std::size_t n) { return Allocate(n, 16); }
void* operator new[](std::size_t n) { return Allocate(n, 16); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
  return Allocate(n, 16);
}
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept {
  return Allocate(n, 16);
}
void* operator new(std::size_t n, std::align_val_t a) {
  return Allocate(n, static_cast<std::size_t>(a));
}
void* operator new[](std::size_t n, std::align_val_t a) {
  return Allocate(n, static_cast<std::size_t>(a));
}
void operator delete(void* p) noexcept { Deallocate(p); }
void operator delete[](void* p) noexcept { Deallocate(p); }
void operator delete(void* p, std::size_t) noexcept { Deallocate(p); }
void operator delete[](void* p, std::size_t) noexcept { Deallocate(p); }
void operator delete(void* p, std::align_val_t) noexcept { Deallocate(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Deallocate(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  Deallocate(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  Deallocate(p);
}

// ------------------------------------------------- Failures of CHECK and friends

namespace principia_verif {
struct FatalError;
void EmitLog(char const*, char const* file, int line, std::string const& text) {
  fprintf(stderr, "%s:%d] %s\n", file, line, text.c_str());
}
[[noreturn]] void Die(char const* file, int line, std::string const& text) {
  mc::Fail(std::string("fatal error in the code: ") + file + ":" +
           std::to_string(line) + "] " + text);
}
}  // namespace principia_verif

// The number of processors of the modelled machine.
unsigned int std::thread::hardware_concurrency() noexcept { return 2; }

int main(int argc, char** argv) { return mc::internal::Main(argc, argv); }
