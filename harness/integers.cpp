// Runs programs on panda's integer types. One program per input line, one answer per line.
//   make TYPE CTOR VALUE
//   run  TYPE PIVOT N (CTOR VALUE)*N  (OP D S)*
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "algorithm_integer_operations.h"
#include "big_integer.h"
#include "safe_integer.h"

using panda::BigInteger;
using panda::SafeInteger;

template <typename I>
I horner(const std::string& text)
{
   const bool negative = text[0] == '-';
   I result(static_cast<int32_t>(0));
   for ( std::size_t i = negative ? 1 : 0; i < text.size(); ++i )
   {
      result *= I(static_cast<int32_t>(10));
      const I digit(static_cast<int32_t>(text[i] - '0'));
      if ( negative ) { result -= digit; } else { result += digit; }
   }
   return result;
}

template <typename I>
I make(const std::string& ctor, const std::string& text)
{
   if ( ctor == "def" ) { return I(); }
   if ( ctor == "i16" ) { return I(static_cast<int16_t>(std::strtoll(text.c_str(), nullptr, 10))); }
   if ( ctor == "i32" ) { return I(static_cast<int32_t>(std::strtoll(text.c_str(), nullptr, 10))); }
   if ( ctor == "i64" ) { return I(static_cast<int64_t>(std::strtoll(text.c_str(), nullptr, 10))); }
   if ( ctor == "u16" ) { return I(static_cast<uint16_t>(std::strtoull(text.c_str(), nullptr, 10))); }
   if ( ctor == "u32" ) { return I(static_cast<uint32_t>(std::strtoull(text.c_str(), nullptr, 10))); }
   if ( ctor == "u64" ) { return I(static_cast<uint64_t>(std::strtoull(text.c_str(), nullptr, 10))); }
   return horner<I>(text);
}

template <typename A, typename B>
void relations(const A& a, const B& b)
{
   std::cout << ' ' << (a < b) << (a <= b) << (a == b) << (a != b) << (a >= b) << (a > b);
}

template <typename I>
void state(const std::vector<I>& r, const int pivot)
{
   for ( const auto& x : r )
   {
      std::cout << ' ' << x;
      relations(x, 0);
      relations(x, pivot);
      try
      {
         const int n = x;
         std::cout << ' ' << n;
      }
      catch ( const std::exception& )
      {
         std::cout << " -";
      }
   }
   relations(r[0], r[1]);
}

template <typename I>
void apply(const std::string& op, I& d, const I& s)
{
   using panda::abs;
   using std::abs;
   if ( op == "add" ) { d += s; }
   else if ( op == "sub" ) { d -= s; }
   else if ( op == "mul" ) { d *= s; }
   else if ( op == "quo" ) { d /= s; }
   else if ( op == "mod" ) { d %= s; }
   else if ( op == "Add" ) { d = d + s; }
   else if ( op == "Sub" ) { d = d - s; }
   else if ( op == "Mul" ) { d = d * s; }
   else if ( op == "Quo" ) { d = d / s; }
   else if ( op == "Mod" ) { d = d % s; }
   else if ( op == "Gcd" ) { d = panda::algorithm::gcd(d, s); }
   else if ( op == "Lcm" ) { d = panda::algorithm::lcm(d, s); }
   else if ( op == "neg" ) { d = -s; }
   else if ( op == "abs" ) { d = abs(s); }
   else if ( op == "set" ) { d = s; }
   else { std::cerr << "unknown operation\n"; std::abort(); }
}

template <typename I>
void run(std::istringstream& in)
{
   int pivot, n;
   in >> pivot >> n;
   std::vector<I> r;
   for ( int k = 0; k < n; ++k )
   {
      std::string ctor, text;
      in >> ctor >> text;
      r.push_back(make<I>(ctor, text));
   }
   std::cout << "ok";
   state(r, pivot);
   std::string op;
   int d, s;
   while ( in >> op >> d >> s )
   {
      std::cout << " ;";
      try
      {
         apply(op, r[d - 1], r[s - 1]);
      }
      catch ( const std::exception& )
      {
         std::cout << " exception";
         break;
      }
      std::cout << " ok";
      state(r, pivot);
   }
}

template <typename I>
void construct(std::istringstream& in)
{
   std::string ctor, text;
   in >> ctor >> text;
   try
   {
      const auto x = make<I>(ctor, text);
      std::cout << "ok " << x;
   }
   catch ( const std::exception& )
   {
      std::cout << "exception";
   }
}

int main()
{
   std::string line;
   while ( std::getline(std::cin, line) )
   {
      std::istringstream in(line);
      std::string kind, type;
      in >> kind >> type;
      if ( kind == "make" )
      {
         if ( type == "inf" ) { construct<BigInteger>(in); } else { construct<SafeInteger>(in); }
      }
      else
      {
         if ( type == "inf" ) { run<BigInteger>(in); } else { run<SafeInteger>(in); }
      }
      std::cout << std::endl;
   }
}
