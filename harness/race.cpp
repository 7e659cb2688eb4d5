// Runtime for code compiled with -fsanitize=thread (linked instead of libtsan,
// together with sched.c): records which memory each thread reads and writes
// between two synchronisation operations.  At exit the locations that could
// race at all (several threads, at least one write) are grouped by their
// access pattern and the execution is written to $RACE_OUT, one JSON object:
//   {"threads":n,"locs":k,"ev":[{"k":"acq|rel|fork|join|begin|end","t":..,"o":..},{"k":"acc","t":..,"r":[..],"w":[..]}],"where":[...]}
// The specification RaceMonitor decides whether two accesses are unordered.
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
extern "C" int sched_self();
extern "C" void sched_point();
namespace
{
   // ---- memory is never reused, so an address is one object
   char* arena;
   std::atomic<std::size_t> used{0};
   const std::size_t ARENA = std::size_t(3) << 30;
   void* take(std::size_t n, std::size_t align = 16)
   {
      if (!arena) arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      n = (n + 31) / 16 * 16 + align;
      std::size_t at = used.fetch_add(n);
      if (at + n > ARENA) { if (write(2, "arena full\n", 11)) {} _exit(88); }
      std::uintptr_t p = reinterpret_cast<std::uintptr_t>(arena) + at + 16;
      p = (p + align - 1) / align * align;
      reinterpret_cast<std::size_t*>(p)[-1] = n - 16 - align;
      return reinterpret_cast<void*>(p);
   }
   thread_local bool busy = false;     // inside the recorder
   thread_local bool over = false;     // after the end of the thread
   bool closed = false;

   struct Access { int seg; bool w; bool operator==(const Access& o) const { return seg == o.seg && w == o.w; } bool operator<(const Access& o) const { return seg != o.seg ? seg < o.seg : w < o.w; } };
   struct Event { char kind; int t; std::uintptr_t o; };
   struct State
   {
      std::vector<Event> events;                 // 'S': segment, o = number
      std::unordered_map<std::uintptr_t, std::vector<Access>> mem;
      std::vector<int> segthread;
      std::unordered_map<std::uintptr_t, void*> where;
      int current[128];
      std::uintptr_t stack_lo[128], stack_hi[128];
      State() { std::fill(current, current + 128, -1); std::fill(stack_lo, stack_lo + 128, 0); std::fill(stack_hi, stack_hi + 128, 0); }
   };
   State* st;
   State& state() { if (!st) { st = new State; } return *st; }
   std::atomic<bool> many{false};               // nothing can race before the first thread

   struct In { bool ok; In() : ok(!busy && !over && !closed) { if (ok) busy = true; } ~In() { if (ok) busy = false; } };

   int segment(int t)
   {
      auto& s = state();
      if (s.current[t] < 0)
      {
         s.current[t] = static_cast<int>(s.segthread.size());
         s.segthread.push_back(t);
         s.events.push_back({'S', t, static_cast<std::uintptr_t>(s.current[t])});
      }
      return s.current[t];
   }
   void sync(char kind, int t, std::uintptr_t o)
   {
      auto& s = state();
      s.current[t] = -1;
      s.events.push_back({kind, t, o});
   }
   void access(const void* p, std::size_t n, bool w, void* pc)
   {
      if (!many.load(std::memory_order_relaxed)) return;
      In in;
      if (!in.ok) return;
      int t = sched_self();
      if (t < 0) return;
      auto a = reinterpret_cast<std::uintptr_t>(p);
      auto& s = state();
      if (!s.stack_hi[t])
      {
         pthread_attr_t at;
         void* lo; std::size_t sz;
         pthread_getattr_np(pthread_self(), &at);
         pthread_attr_getstack(&at, &lo, &sz);
         pthread_attr_destroy(&at);
         s.stack_lo[t] = reinterpret_cast<std::uintptr_t>(lo);
         s.stack_hi[t] = s.stack_lo[t] + sz;
      }
      const int seg = segment(t);
      for (auto x = a / 8; n && x <= (a + n - 1) / 8; ++x)
      {
         std::uintptr_t key = x;
         // stacks are reused by later threads: the location belongs to the latest owner
         if (!(a >= reinterpret_cast<std::uintptr_t>(arena) && a < reinterpret_cast<std::uintptr_t>(arena) + ARENA))
            for (int k = 127; k >= 0; --k) if (x * 8 >= s.stack_lo[k] && x * 8 < s.stack_hi[k]) { key |= std::uintptr_t(k + 1) << 56; break; }
         auto& v = s.mem[key];
         if (v.empty() || v.back().seg != seg) { v.push_back({seg, w}); s.where[key] = pc; }
         else if (w) v.back().w = true;
      }
   }
   void dump()
   {
      closed = true;
      const char* out = getenv("RACE_OUT");
      if (!out || !st) return;
      auto& s = *st;
      std::map<std::vector<Access>, std::pair<int, std::uintptr_t>> classes;
      std::map<int, std::pair<std::vector<int>, std::vector<int>>> acc;   // segment -> reads, writes
      std::vector<std::string> where;
      for (auto& m : s.mem)
      {
         auto& v = m.second;
         bool several = false, w = false;
         for (auto& a : v) { several |= s.segthread[a.seg] != s.segthread[v[0].seg]; w |= a.w; }
         if (!several || !w) continue;
         if (classes.count(v)) continue;
         int id = static_cast<int>(classes.size()) + 1;
         classes[v] = {id, m.first};
         Dl_info di;
         char b[512] = "?";
         void* pc = s.where[m.first];
         if (dladdr(pc, &di)) snprintf(b, sizeof b, "%s+%lx", di.dli_sname ? di.dli_sname : "", (unsigned long)((char*)pc - (char*)di.dli_fbase));
         where.push_back(b);
         for (auto& a : v) (a.w ? acc[a.seg].second : acc[a.seg].first).push_back(id);
      }
      // a lock matters only between threads: number the objects used by several
      std::map<std::uintptr_t, std::pair<int, bool>> users;
      for (auto& e : s.events) if (e.kind == 'A' || e.kind == 'R') { auto it = users.emplace(e.o, std::make_pair(e.t, false)).first; if (it->second.first != e.t) it->second.second = true; }
      std::map<std::uintptr_t, int> ids;
      std::string j = "[";
      int maxt = 0;
      auto add = [&](const std::string& x) { if (j.size() > 1) j += ","; j += x; };
      auto list = [](const std::vector<int>& v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "]"; };
      for (auto& e : s.events)
      {
         const std::string t = ",\"t\":" + std::to_string(e.t);
         maxt = std::max(maxt, e.t);
         if (e.kind == 'S')
         {
            auto it = acc.find(static_cast<int>(e.o));
            if (it != acc.end()) add("{\"k\":\"acc\"" + t + ",\"r\":" + list(it->second.first) + ",\"w\":" + list(it->second.second) + "}");
         }
         else if (e.kind == 'A' || e.kind == 'R')
         {
            if (!users[e.o].second) continue;
            int id = ids.emplace(e.o, static_cast<int>(ids.size()) + 1).first->second;
            add(std::string("{\"k\":\"") + (e.kind == 'A' ? "acq" : "rel") + "\"" + t + ",\"o\":" + std::to_string(id) + "}");
         }
         else
         {
            maxt = std::max(maxt, static_cast<int>(e.kind == 'B' || e.kind == 'E' ? 0 : e.o));
            add(std::string("{\"k\":\"") + (e.kind == 'F' ? "fork" : e.kind == 'J' ? "join" : e.kind == 'B' ? "begin" : "end") + "\"" + t + ",\"o\":" + std::to_string(e.kind == 'B' || e.kind == 'E' ? 0 : (int)e.o) + "}");
         }
      }
      std::string r = "{\"threads\":" + std::to_string(maxt) + ",\"objects\":" + std::to_string(ids.size()) + ",\"locs\":" + std::to_string(classes.size()) + ",\"monitored\":" + std::to_string(s.mem.size()) + ",\"ev\":" + j + "],\"where\":[";
      for (std::size_t i = 0; i < where.size(); ++i) r += (i ? ",\"" : "\"") + where[i] + "\"";
      r += "]}\n";
      FILE* f = fopen(out, "w");
      if (f) { fwrite(r.data(), 1, r.size(), f); fclose(f); }
   }
   struct AtExit { ~AtExit() { busy = true; dump(); } } at_exit __attribute__((init_priority(101)));
}
extern "C"
{
   void race_pause(int on) { busy = on; }
   void race_write(const void* p, std::size_t n) { access(p, n, true, __builtin_return_address(0)); }
   void race_read(const void* p, std::size_t n) { access(p, n, false, __builtin_return_address(0)); }
   // called by sched.c
   void sched_event(const char* what, int t, void* o)
   {
      if (closed) return;
      bool b = busy;
      busy = true;
      auto x = reinterpret_cast<std::uintptr_t>(o);
      if (!strcmp(what, "create")) { many = true; sync('F', t, x); }
      else if (many)
      {
         if (!strcmp(what, "acquire")) sync('A', t, x);
         else if (!strcmp(what, "release")) sync('R', t, x);
         else if (!strcmp(what, "join")) sync('J', t, x);
         else if (!strcmp(what, "start")) sync('B', t, 0);
         else if (!strcmp(what, "exit")) { sync('E', t, 0); over = true; }
      }
      busy = b;
   }
   void* malloc(std::size_t n) { return take(n); }
   void* calloc(std::size_t a, std::size_t b) { return take(a * b); }
   void* realloc(void* p, std::size_t n)
   {
      void* q = take(n);
      if (p) { std::size_t m = static_cast<std::size_t*>(p)[-1]; memcpy(q, p, m < n ? m : n); }
      return q;
   }
   void free(void* p) { if (p) access(p, static_cast<std::size_t*>(p)[-1] > 4096 ? 8 : static_cast<std::size_t*>(p)[-1], true, __builtin_return_address(0)); }
   void* memalign(std::size_t a, std::size_t n) { return take(n, a < 16 ? 16 : a); }
   void* aligned_alloc(std::size_t a, std::size_t n) { return take(n, a < 16 ? 16 : a); }
   int posix_memalign(void** p, std::size_t a, std::size_t n) { *p = take(n, a < 16 ? 16 : a); return 0; }
   std::size_t malloc_usable_size(void* p) { return p ? static_cast<std::size_t*>(p)[-1] : 0; }

   void* memcpy(void* d, const void* s, std::size_t n)
   {
      if (n && many) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); }
      for (std::size_t i = 0; i < n; ++i) static_cast<char*>(d)[i] = static_cast<const char*>(s)[i];
      return d;
   }
   void* memmove(void* d, const void* s, std::size_t n)
   {
      if (n && many) { access(s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); }
      if (d < s) for (std::size_t i = 0; i < n; ++i) static_cast<char*>(d)[i] = static_cast<const char*>(s)[i];
      else for (std::size_t i = n; i > 0; --i) static_cast<char*>(d)[i - 1] = static_cast<const char*>(s)[i - 1];
      return d;
   }
   void* memset(void* d, int c, std::size_t n)
   {
      if (n && many) access(d, n, true, __builtin_return_address(0));
      for (std::size_t i = 0; i < n; ++i) static_cast<char*>(d)[i] = static_cast<char>(c);
      return d;
   }

   void __tsan_init() {}
   void __tsan_func_entry(void*) {}
   void __tsan_func_exit() {}
#define RW(n) \
   void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
   void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
   void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
   void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
   void __tsan_volatile_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
   void __tsan_volatile_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }
   RW(1) RW(2) RW(4) RW(8) RW(16)
   void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, __builtin_return_address(0)); }
   void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, __builtin_return_address(0)); }
   void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, __builtin_return_address(0)); }
   void __tsan_vptr_read(void** p) { access(p, 8, false, __builtin_return_address(0)); }

   // atomic operations order the threads; they are no data accesses
   static void order(const volatile void* p, int mo, bool load, bool store)
   {
      if (!many || busy || over || closed) return;
      int t = sched_self();
      if (t < 0) return;
      busy = true;
      if (load && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) sync('A', t, reinterpret_cast<std::uintptr_t>(p));
      if (store && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) sync('R', t, reinterpret_cast<std::uintptr_t>(p));
      busy = false;
   }
   static void pre() { if (many && !busy && !over && !closed) sched_point(); }
#define ATOM(N, T) \
   T __tsan_atomic##N##_load(const volatile T* a, int mo) { pre(); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); order(a, mo, true, false); return r; } \
   void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { pre(); order(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { pre(); order(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { pre(); order(a, mo, true, true); (void)fmo; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { pre(); order(a, mo, true, true); (void)fmo; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { pre(); order(a, mo, true, true); (void)fmo; __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
   ATOM(8, std::uint8_t) ATOM(16, std::uint16_t) ATOM(32, std::uint32_t) ATOM(64, std::uint64_t)
   void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
   void __tsan_atomic_signal_fence(int) {}

   void race_order(void* p, int load, int store) { order(p, __ATOMIC_SEQ_CST, load, store); }
}
