// Drives the real worker pool: workers take rows and put the rows that follow
// from them; the initialisation and a thread with known rows put as in the
// program.  Prints one JSON object: the linearised trace.
// usage: pool WORKERS "1,2;;3;" FIRST KNOWN TAG   (successors of row 1;2;3..., lists of rows)
#include <atomic>
#include <cstdlib>
#include <iostream>
#include <list>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "list.h"
#include "matrix.h"
#include "names.h"
#include "row.h"
#include "tags.h"
using namespace panda;
extern "C" void race_write(const void*, std::size_t) __attribute__((weak));   // see race.cpp
extern "C" void race_pause(int) __attribute__((weak));
namespace
{
   std::atomic_flag flag = ATOMIC_FLAG_INIT;
   std::string events;
   std::size_t count = 0;
   thread_local int me = 0;
   void event(const std::string& s)
   {
      if (race_pause) race_pause(1);
      while (flag.test_and_set()) {}
      events += (count++ ? ",{" : "{") + s + "}";
      flag.clear();
      if (race_pause) race_pause(0);
   }
   std::string t() { return ",\"t\":" + std::to_string(me); }
   struct Buffer : std::streambuf
   {
      // per thread and stream: complete lines become events
      static thread_local std::string line[2];
      int which;
      explicit Buffer(int w) : which(w) {}
      int overflow(int c) override { if (c != EOF) { put(static_cast<char>(c)); } return c; }
      std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
      void put(char c)
      {
         if (which == 0 && race_write) race_write(this, 8);     // the output is shared, too
         if (c != '\n') { line[which] += c; return; }
         std::string l;
         l.swap(line[which]);
         long a, b;
         if (which == 0)
         {
            if (std::sscanf(l.c_str(), "%ld", &a) == 1) event("\"k\":\"print\"" + t() + ",\"row\":" + std::to_string(a));
            else event("\"k\":\"print\"" + t() + ",\"row\":-7");
         }
         else if (std::sscanf(l.c_str(), "Processing #%ld of at least %ld class", &a, &b) == 2) event("\"k\":\"start\"" + t() + ",\"num\":" + std::to_string(a) + ",\"n\":" + std::to_string(b));
         else if (std::sscanf(l.c_str(), "Done processing #%ld", &a) == 1) event("\"k\":\"done\"" + t() + ",\"num\":" + std::to_string(a));
      }
   };
   thread_local std::string Buffer::line[2];
   std::vector<int> numbers(const std::string& s)
   {
      std::vector<int> r;
      std::stringstream in(s);
      std::string x;
      while (std::getline(in, x, ',')) if (!x.empty() && x != "-") r.push_back(std::atoi(x.c_str()));
      return r;
   }
   Row<int> make(int k) { return Row<int>{k, 1, -1}; }
   std::string list(const std::vector<int>& v)
   {
      std::string s = "[";
      for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
      return s + "]";
   }
   template <typename Pool>
   void put(Pool& pool, const std::vector<int>& rows)
   {
      Matrix<int> m;
      for (auto r : rows) m.push_back(make(r));
      event("\"k\":\"callput\"" + t() + ",\"one\":false,\"rows\":" + list(rows));
      pool.put(m);
      event("\"k\":\"retput\"" + t());
   }
   template <typename Tag>
   void drive(int workers, const std::vector<std::vector<int>>& succ, const std::vector<int>& first, const std::vector<int>& known)
   {
      const List<int, Tag> pool({});
      put(pool, first);
      std::list<std::thread> threads;
      threads.emplace_back([&]()
      {
         me = workers + 1;
         for (auto k : known)
         {
            event("\"k\":\"callput\"" + t() + ",\"one\":true,\"rows\":" + list({k}));
            pool.put(make(k));
            event("\"k\":\"retput\"" + t());
         }
      });
      for (int w = 1; w <= workers; ++w)
      {
         threads.emplace_back([&, w]()
         {
            me = w;
            while (true)
            {
               const auto row = pool.get();
               const int id = row.empty() ? 0 : row[0];
               event("\"k\":\"retget\"" + t() + ",\"row\":" + std::to_string(id));
               if (row.empty()) break;
               put(pool, id >= 1 && id <= static_cast<int>(succ.size()) ? succ[static_cast<std::size_t>(id - 1)] : std::vector<int>{});
            }
         });
      }
      for (auto& x : threads) x.join();
   }
}
int main(int argc, char** argv)
{
   if (argc < 6) return 2;
   const int workers = std::atoi(argv[1]);
   std::vector<std::vector<int>> succ;
   {
      std::stringstream in(argv[2]);
      std::string x;
      while (std::getline(in, x, ';')) succ.push_back(numbers(x));
   }
   auto* out = std::cout.rdbuf();
   Buffer b0(0), b1(1);
   auto* err = std::cerr.rdbuf();
   std::cout.rdbuf(&b0);
   std::cerr.rdbuf(&b1);
   if (std::atoi(argv[5]) == 0) drive<tag::facet>(workers, succ, numbers(argv[3]), numbers(argv[4]));
   else drive<tag::vertex>(workers, succ, numbers(argv[3]), numbers(argv[4]));
   std::cout.rdbuf(out);
   std::cerr.rdbuf(err);
   std::cout << "{\"kind\":\"api\",\"workers\":" << workers << ",\"ev\":[" << events << "]}\n";
   return 0;
}
