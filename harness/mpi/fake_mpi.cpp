// Message passing between processes through shared memory with adversarial, seeded delays.
//  - The buffer of a send is read when the message is transferred, at some later call of the sender (as a real
//    library may do), a send completes when it was transferred, or (FAKE_MPI_SYNC) when it was received.
//  - Messages of one sender to one receiver keep their order; they become visible after a random number of looks.
//  - Every post, completion and receipt is logged with a global number; overlapping calls of the threads of one
//    process are logged as well, unless MPI_THREAD_MULTIPLE was asked for.
#include "mpi.h"

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace
{
   constexpr int max_messages = 120000;
   constexpr std::size_t arena_size = 48u << 20;
   struct Message { int src, dst, tag, len, state, patience; std::size_t offset; };   // 0 posted, 1 transferred, 2 visible, 3 received
   struct Shared
   {
      std::atomic<int> lock;
      std::atomic<long> sequence;
      std::atomic<int> finished, initialised;
      int messages; std::size_t used;
      std::atomic<int> barrier;
      Message message[max_messages];
      unsigned char arena[arena_size];
   };
   struct Pending { int message; const unsigned char* buffer; bool completed, synchronous; };
   Shared* shared = nullptr;
   int rank = 0, size = 1, log_file = -1, level = MPI_THREAD_SINGLE;
   bool synchronous = false, initialised = false, finalised = false;
   int jitter = 0, slow_rank = -1;
   std::vector<Pending>* pending = nullptr;
   std::atomic<int> inside(0);
   std::atomic<bool> active(false);

   std::uint64_t seed_state = 88172645463325252ULL;
   std::uint64_t random64()     // under the lock
   {
      seed_state ^= seed_state << 13; seed_state ^= seed_state >> 7; seed_state ^= seed_state << 17;
      return seed_state * 2685821657736338717ULL;
   }
   std::uint64_t threadRandom()
   {
      thread_local std::uint64_t s = static_cast<std::uint64_t>(syscall(SYS_gettid)) * 0x9E3779B97F4A7C15ULL + seed_state;
      s ^= s << 13; s ^= s >> 7; s ^= s << 17;
      return s * 2685821657736338717ULL >> 11;
   }
   void nap(const long ns) { struct timespec t = {0, ns}; nanosleep(&t, nullptr); }
   void acquire() { int n = 0; for ( int e = 0; !shared->lock.compare_exchange_weak(e, 1); e = 0 ) if ( ++n > 50 ) sched_yield(); }
   void release() { shared->lock.store(0); }
   int threadNumber()
   {
      static std::atomic<int> threads(0);
      thread_local int mine = -1;
      if ( mine < 0 ) mine = threads++;
      return mine;
   }
   void note(const char* kind, const int peer, const int tag, const int id, const unsigned char* data, const int len)     // under the lock
   {
      std::string s = std::to_string(shared->sequence++) + " " + std::to_string(rank) + " " + std::to_string(threadNumber()) + " " + kind + " " +
                      std::to_string(peer) + " " + std::to_string(tag) + " " + std::to_string(id) + " " + std::to_string(len) + " ";
      static const char* hex = "0123456789abcdef";
      for ( int k = 0; k < len; ++k ) { s += hex[data[k] >> 4]; s += hex[data[k] & 15]; }
      s += "\n";
      if ( log_file >= 0 && write(log_file, s.data(), s.size()) < 0 ) _exit(99);
   }
   void fail(const char* what)
   {
      fprintf(stderr, "message passing: %s\n", what);
      if ( shared ) { acquire(); note(what, -1, 0, 0, nullptr, 0); release(); }
      abort();
   }
   struct Call
   {
      Call()
      {
         if ( !initialised ) fail("call-before-init");
         if ( finalised ) fail("call-after-finalize");
         if ( inside++ > 0 && level < MPI_THREAD_MULTIPLE ) { acquire(); note("overlap", -1, 0, 0, nullptr, 0); release(); }
         if ( jitter && threadRandom() % 16 == 0 ) nap(static_cast<long>(threadRandom() % 30000));
      }
      ~Call() { --inside; }
   };
   // one more look at the network: transfers own messages and makes messages for this process visible
   void progress()     // under the lock
   {
      bool blocked[64] = {};
      for ( auto& p : *pending )
      {
         Message& m = shared->message[p.message];
         if ( m.state == 0 && m.dst < 64 && !blocked[m.dst] )
         {
            if ( m.patience-- > 0 ) { blocked[m.dst] = true; continue; }
            if ( m.len > 0 ) std::memcpy(shared->arena + m.offset, p.buffer, static_cast<std::size_t>(m.len));
            m.state = 1;
            m.patience = static_cast<int>(random64() % 4 ? random64() % 3 : random64() % 40);
            if ( slow_rank == m.src || slow_rank == m.dst ) m.patience *= 5;
         }
      }
      bool waiting[64] = {};
      for ( int k = 0; k < shared->messages; ++k )
      {
         Message& m = shared->message[k];
         if ( m.dst != rank || m.state >= 2 || m.src >= 64 ) continue;
         if ( waiting[m.src] || m.state == 0 || m.patience-- > 0 ) { waiting[m.src] = true; continue; }
         m.state = 2;
      }
   }
   int find(const int source, const int tag)     // under the lock
   {
      bool earlier[64] = {};
      for ( int k = 0; k < shared->messages; ++k )
      {
         const Message& m = shared->message[k];
         if ( m.dst != rank || m.state == 3 ) continue;
         if ( (source != MPI_ANY_SOURCE && m.src != source) || (tag != MPI_ANY_TAG && m.tag != tag) ) continue;
         if ( m.state == 2 && !earlier[m.src] ) return k;
         earlier[m.src] = true;
      }
      return -1;
   }
   void fill(MPI_Status* s, const int k)
   {
      if ( !s ) return;
      s->MPI_SOURCE = shared->message[k].src; s->MPI_TAG = shared->message[k].tag; s->MPI_ERROR = MPI_SUCCESS; s->bytes = shared->message[k].len;
   }
   int width(const MPI_Datatype t) { return t % 16; }
   MPI_Request post(const void* buffer, const int count, const MPI_Datatype type, const int to, const int tag, const bool sync)
   {
      if ( to < 0 || to >= size || count < 0 ) fail("bad-arguments");
      acquire();
      progress();
      const int len = count * width(type);
      if ( shared->messages == max_messages || shared->used + static_cast<std::size_t>(len) > arena_size ) { release(); fail("capacity"); }
      const int id = shared->messages++;
      Message& m = shared->message[id];
      m.src = rank; m.dst = to; m.tag = tag; m.len = len; m.state = 0; m.offset = shared->used;
      m.patience = static_cast<int>(random64() % 4 ? random64() % 2 : random64() % 12);
      shared->used += static_cast<std::size_t>(len);
      pending->push_back(Pending{id, static_cast<const unsigned char*>(buffer), false, sync || synchronous});
      const auto r = static_cast<MPI_Request>(pending->size()) - 1;
      note("post", to, tag, id, static_cast<const unsigned char*>(buffer), len);
      release();
      return r;
   }
   bool test(MPI_Request* r)     // under the lock
   {
      if ( *r == MPI_REQUEST_NULL ) return true;
      if ( *r < 0 || *r >= static_cast<int>(pending->size()) ) { release(); fail("bad-request"); }
      Pending& p = (*pending)[static_cast<std::size_t>(*r)];
      if ( p.completed ) { release(); fail("request-completed-twice"); }
      const Message& m = shared->message[p.message];
      if ( m.state < (p.synchronous ? 3 : 1) ) return false;
      p.completed = true;
      note("done", m.dst, m.tag, p.message, nullptr, 0);
      *r = MPI_REQUEST_NULL;
      return true;
   }
   int env(const char* name, const int otherwise) { const char* s = getenv(name); return s ? atoi(s) : otherwise; }
   struct Leaving { ~Leaving() { active = false; } } leaving;
}

// threads are delayed now and then before they lock
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
   using Function = int (*)(pthread_mutex_t*);
   static std::atomic<Function> real(nullptr);
   Function f = real.load();
   if ( !f ) { f = reinterpret_cast<Function>(dlsym(RTLD_NEXT, "pthread_mutex_lock")); real.store(f); }
   if ( active.load() && jitter && threadRandom() % 32 == 0 ) nap(static_cast<long>(threadRandom() % 60000));
   return f(m);
}

extern "C" {
int MPI_Init_thread(int*, char***, int required, int* provided)
{
   if ( initialised ) fail("initialised-twice");
   rank = env("FAKE_MPI_RANK", 0);
   size = env("FAKE_MPI_SIZE", 1);
   synchronous = env("FAKE_MPI_SYNC", 0) != 0;
   jitter = env("FAKE_MPI_JITTER", 1);
   slow_rank = env("FAKE_MPI_SLOW", -1);
   seed_state = 88172645463325252ULL + static_cast<std::uint64_t>(env("FAKE_MPI_SEED", 1)) * 1000003ULL + static_cast<std::uint64_t>(rank) * 7919ULL;
   for ( int k = 0; k < 10; ++k ) random64();
   const char* dir = getenv("FAKE_MPI_DIR");
   if ( !dir ) { fprintf(stderr, "FAKE_MPI_DIR is not set\n"); abort(); }
   const int fd = open((std::string(dir) + "/shared").c_str(), O_RDWR | O_CREAT, 0600);
   if ( fd < 0 || ftruncate(fd, sizeof(Shared)) != 0 ) { perror("shared"); abort(); }
   void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   if ( p == MAP_FAILED ) { perror("mmap"); abort(); }
   close(fd);
   shared = static_cast<Shared*>(p);     // a new file is zero
   log_file = open((std::string(dir) + "/log." + std::to_string(rank)).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
   pending = new std::vector<Pending>;
   level = required;
   if ( provided ) *provided = required;
   initialised = true;
   active = jitter != 0;
   acquire(); note("init", -1, level, 0, nullptr, 0); release();
   ++shared->initialised;
   return MPI_SUCCESS;
}
int MPI_Init(int* c, char*** v) { return MPI_Init_thread(c, v, MPI_THREAD_SINGLE, nullptr); }
int MPI_Initialized(int* f) { *f = initialised; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = finalised; return MPI_SUCCESS; }
int MPI_Finalize(void)
{
   {
      Call c;
      acquire(); note("final", -1, 0, 0, nullptr, 0); release();
      ++shared->finished;
      while ( shared->finished.load() < size )
      {
         acquire(); progress(); release();
         nap(200000);
      }
   }
   finalised = true;
   return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) { _exit(code ? code : 1); }
int MPI_Comm_rank(MPI_Comm, int* r) { Call c; *r = rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* s) { Call c; *s = size; return MPI_SUCCESS; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request* r) { Call c; *r = post(b, n, t, to, tag, false); return MPI_SUCCESS; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request* r) { Call c; *r = post(b, n, t, to, tag, true); return MPI_SUCCESS; }
static void finish(MPI_Request* r)
{
   for ( ; ; nap(20000) )
   {
      acquire(); progress(); const bool d = test(r); release();
      if ( d ) return;
   }
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { Call c; MPI_Request r = post(b, n, t, to, tag, false); finish(&r); return MPI_SUCCESS; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { Call c; MPI_Request r = post(b, n, t, to, tag, true); finish(&r); return MPI_SUCCESS; }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status*) { Call c; acquire(); progress(); *flag = test(r); release(); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status*)
{
   Call c;
   acquire(); progress();
   *flag = 1;
   for ( int k = 0; k < n; ++k ) if ( r[k] != MPI_REQUEST_NULL && !test(r + k) ) *flag = 0;
   release();
   return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) { Call c; finish(r); return MPI_SUCCESS; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) { Call c; for ( int k = 0; k < n; ++k ) finish(r + k); return MPI_SUCCESS; }
int MPI_Iprobe(int source, int tag, MPI_Comm, int* flag, MPI_Status* s)
{
   Call c;
   acquire(); progress();
   const int k = find(source, tag);
   *flag = k >= 0;
   if ( k >= 0 ) fill(s, k);
   release();
   return MPI_SUCCESS;
}
int MPI_Probe(int source, int tag, MPI_Comm w, MPI_Status* s)
{
   for ( ; ; nap(20000) ) { int flag; MPI_Iprobe(source, tag, w, &flag, s); if ( flag ) return MPI_SUCCESS; }
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int source, int tag, MPI_Comm, MPI_Status* s)
{
   Call c;
   for ( ; ; nap(20000) )
   {
      acquire(); progress();
      const int k = find(source, tag);
      if ( k >= 0 )
      {
         Message& m = shared->message[k];
         if ( m.len > n * width(t) ) { release(); fail("truncation"); }
         if ( m.len > 0 ) std::memcpy(b, shared->arena + m.offset, static_cast<std::size_t>(m.len));
         m.state = 3;
         fill(s, k);
         note("recv", m.src, m.tag, k, shared->arena + m.offset, m.len);
         release();
         return MPI_SUCCESS;
      }
      release();
   }
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->bytes % width(t) ? MPI_UNDEFINED : s->bytes / width(t); return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm)
{
   Call c;
   const int target = (shared->barrier++ / size + 1) * size;
   while ( shared->barrier.load() < target ) { acquire(); progress(); release(); nap(50000); }
   return MPI_SUCCESS;
}
}
