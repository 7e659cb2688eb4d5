// Interpreter of programs over the scoped helpers: scope guards, delayed actions, joining threads, guarded and peeked files.
// One program per line:  helpers UNIT op,i,j,v;...     -> counts after every operation, separated by ';'
//                        stream FILE op;...            -> pos eof fail out after every operation
#include "delayed_action.h"
#include "input_common.h"
#include "istream_peek_line.h"
#include "joining_thread.h"
#include "position_guarded_file.h"
#include "scope_guard.h"

#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// ---- a clock that only the program moves
static std::atomic<long long> virtual_ns{1700000000LL * 1000000000LL};
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
   if ( id == CLOCK_REALTIME || id == CLOCK_MONOTONIC )
   {
      const long long n = virtual_ns.load();
      t->tv_sec = n / 1000000000LL;
      t->tv_nsec = n % 1000000000LL;
      return 0;
   }
   return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace
{
   struct Act { std::atomic<int>* runs; void operator()() const { ++*runs; } };
   using Guard = panda::ScopeGuard<Act>;
   using Delay = panda::DelayedAction<Act>;
   using Thread = panda::JoiningThread;
   struct Waiting
   {
      std::atomic<int>* runs; std::atomic<bool>* released;
      void operator()() const
      {
         while ( !released->load() ) std::this_thread::yield();
         struct timespec t = {0, 300000};
         nanosleep(&t, nullptr);
         ++*runs;
      }
   };
   struct Slot
   {
      enum Kind { none, guard, delay, thread } kind;
      int act;
      bool owner;    // false after the helper was moved away
      alignas(alignof(std::max_align_t)) unsigned char memory[256];
      Slot() : kind(none), act(-1), owner(true) {}
      template <typename T> T* as() { static_assert(sizeof(T) <= sizeof(memory), ""); return reinterpret_cast<T*>(memory); }
   };
   struct Machine
   {
      std::vector<Slot> slots;
      std::vector<std::atomic<int>*> runs;           // deliberately never freed: a broken helper may act late
      std::vector<std::atomic<bool>*> released;
      Machine() : slots(8) {}
      int add() { runs.push_back(new std::atomic<int>(0)); released.push_back(new std::atomic<bool>(false)); return static_cast<int>(runs.size()) - 1; }
      void finish(Slot& s)
      {
         if ( s.kind == Slot::thread && s.owner ) released[s.act]->store(true);
         const auto k = s.kind;
         s.kind = Slot::none;
         if ( k == Slot::guard ) s.as<Guard>()->~Guard();
         else if ( k == Slot::delay ) s.as<Delay>()->~Delay();
         else if ( k == Slot::thread ) s.as<Thread>()->~Thread();
      }
      void finishAll() { for ( auto k = slots.size(); k > 0; --k ) finish(slots[k - 1]); }
      std::string state() const { std::string s; for ( const auto r : runs ) s += std::to_string(r->load()) + ","; return s; }
   };
   void makeDelay(void* p, const Act& a, const long long ns)
   {
      using namespace std::chrono;
      Act copy(a);
      if ( ns % 1000000000LL == 0 ) ::new (p) Delay(panda::makeDelayedAction(std::move(copy), seconds(ns / 1000000000LL)));
      else if ( ns % 1000000LL == 0 ) ::new (p) Delay(panda::makeDelayedAction(std::move(copy), milliseconds(ns / 1000000LL)));
      else ::new (p) Delay(panda::makeDelayedAction(std::move(copy), nanoseconds(ns)));
   }
   struct AtEnd { Machine& m; ~AtEnd() { m.finishAll(); } };
   struct Stop {};

   std::string helpers(std::istream& in)
   {
      long long unit; std::string text, out;
      in >> unit >> text;
      std::istringstream ops(text);
      Machine m;
      for ( std::string op; std::getline(ops, op, ';'); )
      {
         char name[32]; int i, j; long long v;
         if ( sscanf(op.c_str(), "%31[a-z],%d,%d,%lld", name, &i, &j, &v) != 4 ) return "malformed";
         v *= unit;
         const std::string n(name);
         Slot& s = m.slots[i]; Slot& d = m.slots[j];
         if ( n == "guard" ) { s.act = m.add(); const Act a{m.runs[s.act]}; ::new (s.memory) Guard(panda::makeScopeGuard(Act(a))); s.kind = Slot::guard; s.owner = true; }
         else if ( n == "delay" ) { s.act = m.add(); makeDelay(s.memory, Act{m.runs[s.act]}, v); s.kind = Slot::delay; s.owner = true; }
         else if ( n == "thread" ) { s.act = m.add(); ::new (s.memory) Thread(Waiting{m.runs[s.act], m.released[s.act]}); s.kind = Slot::thread; s.owner = true; }
         else if ( n == "move" )
         {
            d.act = s.act; d.kind = s.kind; d.owner = s.owner; s.owner = false;
            if ( s.kind == Slot::guard ) ::new (d.memory) Guard(std::move(*s.as<Guard>()));
            else if ( s.kind == Slot::delay ) ::new (d.memory) Delay(std::move(*s.as<Delay>()));
            else ::new (d.memory) Thread(std::move(*s.as<Thread>()));
         }
         else if ( n == "dismiss" ) { if ( s.kind == Slot::guard ) s.as<Guard>()->dismiss(); else s.as<Delay>()->dismiss(); }
         else if ( n == "advance" ) virtual_ns += v;
         else if ( n == "destroy" ) m.finish(s);
         else if ( n == "throw" ) { try { AtEnd e{m}; throw Stop(); } catch ( const Stop& ) {} }
         else if ( n == "leave" ) { AtEnd e{m}; }
         else return "malformed";
         out += m.state() + ";";
      }
      for ( auto r : m.released ) r->store(true);
      return out;
   }
   std::string show(std::string s)
   {
      std::string r;
      for ( char c : s ) r += c == '\n' ? 'n' : c == ' ' ? '_' : c;
      return r;
   }
   std::string stream(std::istream& in)
   {
      std::string name, text, out;
      in >> name >> text;
      std::ifstream file(name);
      std::vector<std::unique_ptr<panda::PositionGuardedFile>> guards;
      std::istringstream ops(text);
      for ( std::string op; std::getline(ops, op, ';'); )
      {
         std::string s;
         if ( op == "peekLine" ) s = panda::peekLine(file);
         else if ( op == "peekWord" ) s = panda::input::peekWord(file);
         else if ( op == "guard" ) guards.emplace_back(new panda::PositionGuardedFile(file));
         else if ( op == "release" ) guards.pop_back();
         else if ( op == "seek" ) { file.clear(); file.seekg(0); }
         else if ( op == "readLine" ) std::getline(file, s);
         else if ( op == "readWord" ) file >> s;
         else return "malformed";
         const bool eof = file.eof(), fail = file.fail();
         out += std::to_string(static_cast<long long>(file.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in))) + "," + (eof ? "1" : "0") + "," + (fail ? "1" : "0") + "," + show(s) + ";";
      }
      while ( !guards.empty() ) guards.pop_back();
      return out;
   }
}

int main()
{
   const auto before = std::chrono::system_clock::now();
   virtual_ns += 5;
   if ( std::chrono::system_clock::now() - before != std::chrono::nanoseconds(5) ) { std::cout << "no virtual clock" << std::endl; return 3; }
   for ( std::string line; std::getline(std::cin, line); )
   {
      std::istringstream in(line);
      std::string what;
      in >> what;
      try { std::cout << (what == "helpers" ? helpers(in) : stream(in)) << std::endl; }
      catch ( const std::exception& e ) { std::cout << "exception " << e.what() << std::endl; }
   }
   std::cout.flush();
   _exit(0);
}
