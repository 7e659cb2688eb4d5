// Runs programs on panda's bit sets. One program per line, one answer (JSON list of observations) per line:
//   WORDS(0: variable) CAPACITY BOUND  N i1..iN (for each of the registers)  STEPS (OP D S T X)*
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef HARNESS_PORTABLE
   #undef __GNUC__
   #undef __clang__
#endif
#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"

namespace
{
   const int registers = 3;

   template <typename B>
   void observe(const std::vector<B>& r, const std::size_t capacity, const std::size_t bound, std::ostream& out)
   {
      out << "\"member\":[";
      for ( int a = 0; a < registers; ++a )
      {
         out << (a ? ",[" : "[");
         bool first = true;
         for ( std::size_t i = 0; i < bound; ++i )
         {
            B single(capacity);
            single.set(i);
            if ( r[a].contains(single, bound) ) { out << (first ? "" : ",") << i; first = false; }
         }
         out << "]";
      }
      out << "],\"count\":[";
      for ( int a = 0; a < registers; ++a ) { out << (a ? "," : "") << r[a].count(bound); }
      std::ostringstream eq, co, uc, un;
      for ( int a = 0; a < registers; ++a )
      {
         const char* const sep = a ? ",[" : "[";
         eq << sep; co << sep; uc << sep; un << sep;
         for ( int b = 0; b < registers; ++b )
         {
            const char* const comma = b ? "," : "";
            eq << comma << (r[a].equals(r[b], bound) ? "true" : "false");
            co << comma << (r[a].contains(r[b], bound) ? "true" : "false");
            uc << comma << B::unionCount(r[a], r[b], bound);
            un << comma << "[";
            for ( int c = 0; c < registers; ++c ) { un << (c ? "," : "") << (B::unionContains(r[a], r[b], r[c], bound) ? "true" : "false"); }
            un << "]";
         }
         eq << "]"; co << "]"; uc << "]"; un << "]";
      }
      out << "],\"equal\":[" << eq.str() << "],\"contains\":[" << co.str() << "],\"unionCount\":[" << uc.str() << "],\"unionContains\":[" << un.str() << "]}";
   }

   template <typename B>
   void serve(std::istream& in, std::ostream& out)
   {
      std::size_t capacity, bound;
      in >> capacity >> bound;
      std::vector<B> r;
      for ( int a = 0; a < registers; ++a )
      {
         r.emplace_back(capacity);
         std::size_t n, x;
         in >> n;
         while ( n-- > 0 ) { in >> x; r.back().set(x); }
      }
      out << "[{\"op\":\"start\",";
      observe(r, capacity, bound, out);
      std::size_t steps;
      in >> steps;
      while ( steps-- > 0 )
      {
         std::string op;
         int d, s, t;
         std::size_t x;
         in >> op >> d >> s >> t >> x;
         if ( op == "set" ) { r[d - 1].set(x); }
         else if ( op == "merge" ) { r[d - 1] = r[s - 1].merge(r[t - 1], bound); }
         else if ( op == "copy" ) { const B c(r[s - 1]); r[d - 1] = c; }
         else if ( op == "swap" ) { B c(std::move(r[s - 1])); B e(r[d - 1 == s - 1 ? 0 : d - 1]); if ( d != s ) { r[s - 1] = std::move(e); r[d - 1] = std::move(c); } else { r[d - 1] = std::move(c); } }
         else { bound = x; }
         out << ",{\"op\":\"" << op << "\",\"d\":" << d << ",\"s\":" << s << ",\"t\":" << t << ",\"x\":" << x << ",";
         observe(r, capacity, bound, out);
      }
      out << "]";
   }
}

int main()
{
   std::string line;
   while ( std::getline(std::cin, line) )
   {
      std::istringstream in(line);
      std::ostringstream out;
      int words;
      in >> words;
      switch ( words )
      {
         #define CASE(n) case n: serve<panda::BitsetFixedSize<n>>(in, out); break;
         CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(8) CASE(10) CASE(12) CASE(16) CASE(20) CASE(30) CASE(40) CASE(50) CASE(75) CASE(100) CASE(150) CASE(200)
         default: serve<panda::BitsetVariableSize>(in, out);
      }
      std::cout << out.str() << std::endl;
   }
}
