// Runs panda's linear algebra. One request per line, one answer per line:
//   TYPE OP ...   matrices as "rows columns entries", rows as "1 columns entries"
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>

#include "algorithm_inequality_operations.h"
#include "algorithm_integer_operations.h"
#include "algorithm_matrix_operations.h"
#include "algorithm_row_operations.h"
#include "big_integer.h"
#include "safe_integer.h"

using namespace panda;

template <typename I>
I number(const std::string& text)
{
   const bool negative = text[0] == '-';
   I result = static_cast<I>(0);
   for ( std::size_t i = negative ? 1 : 0; i < text.size(); ++i )
   {
      const I digit = static_cast<I>(text[i] - '0');
      result = static_cast<I>(result * static_cast<I>(10));
      if ( negative ) { result = static_cast<I>(result - digit); } else { result = static_cast<I>(result + digit); }
   }
   return result;
}

template <typename I>
Matrix<I> matrix(std::istream& in)
{
   std::size_t rows, columns;
   in >> rows >> columns;
   Matrix<I> result;
   for ( std::size_t r = 0; r < rows; ++r )
   {
      result.emplace_back();
      std::string text;
      for ( std::size_t c = 0; c < columns; ++c ) { in >> text; result.back().push_back(number<I>(text)); }
   }
   return result;
}

template <typename I>
void show(const Row<I>& r)
{
   for ( const auto& x : r ) { std::cout << ' ' << x; }
   std::cout << " ;";
}

template <typename I>
void show(const Matrix<I>& m)
{
   for ( const auto& r : m ) { show(r); }
}

template <typename I>
Row<I> one(std::istream& in) { return matrix<I>(in)[0]; }

template <typename I>
void serve(std::istream& in)
{
   std::string op;
   in >> op;
   if ( op == "equations" ) { show(algorithm::extractEquations(matrix<I>(in))); }
   else if ( op == "elimination" )
   {
      auto m = matrix<I>(in);
      const auto n = m[0].size();
      for ( std::size_t i = 0; i < n; ++i ) { m.emplace_back(n, I(0)); m.back()[i] = I(-1); }
      const auto pivots = algorithm::gaussianElimination(m);
      for ( const auto x : pivots.first ) { std::cout << ' ' << x; }
      std::cout << " ;";
      for ( const auto x : pivots.second ) { std::cout << ' ' << x; }
      std::cout << " ;";
      show(m);
   }
   else if ( op == "normalise" )
   {
      const auto eqs = algorithm::extractEquations(matrix<I>(in));
      for ( const auto& r : matrix<I>(in) ) { show(algorithm::normalize(r, eqs)); }
   }
   else if ( op == "rank" ) { std::cout << algorithm::dimension(matrix<I>(in)); }
   else if ( op == "transpose" ) { show(algorithm::transpose(matrix<I>(in))); }
   else if ( op == "product" ) { const auto m = matrix<I>(in); show(Row<I>(m * one<I>(in))); }
   else if ( op == "nearest" ) { const auto m = matrix<I>(in); show(Row<I>(algorithm::nearestVertex(m, one<I>(in)))); }
   else if ( op == "furthest" ) { const auto m = matrix<I>(in); show(Row<I>(algorithm::furthestVertex(m, one<I>(in)))); }
   else if ( op == "gcd" ) { show(Row<I>{algorithm::gcd(one<I>(in))}); }
   else if ( op == "lcm" ) { show(Row<I>{algorithm::lcm(one<I>(in))}); }
   else if ( op == "gcd2" ) { const auto a = one<I>(in); show(Row<I>{algorithm::gcd(a[0], a[1])}); }
   else if ( op == "lcm2" ) { const auto a = one<I>(in); show(Row<I>{algorithm::lcm(a[0], a[1])}); }
   else if ( op == "rhs" ) { show(Row<I>{algorithm::rhs(one<I>(in))}); }
   else
   {
      const auto a = one<I>(in);
      const auto b = one<I>(in);
      if ( op == "add" ) { show(Row<I>(a + b)); }
      else if ( op == "sub" ) { show(Row<I>(a - b)); }
      else if ( op == "scale" ) { show(Row<I>(a * b[0])); }
      else if ( op == "lscale" ) { show(Row<I>(b[0] * a)); }
      else if ( op == "divide" ) { show(Row<I>(a / b[0])); }
      else if ( op == "dot" ) { show(Row<I>{a * b}); }
      else if ( op == "distance" ) { show(Row<I>{algorithm::distance(a, b)}); }
   }
}

int main()
{
   std::string line, type;
   while ( std::getline(std::cin, line) )
   {
      std::istringstream in(line);
      in >> type;
      try
      {
         if ( type == "16" ) { serve<int16_t>(in); }
         else if ( type == "32" ) { serve<int32_t>(in); }
         else if ( type == "64" ) { serve<int64_t>(in); }
         else if ( type == "safe" ) { serve<SafeInteger>(in); }
         else { serve<BigInteger>(in); }
         std::cout << std::endl;
      }
      catch ( const std::exception& e )
      {
         std::cout << "exception " << e.what() << std::endl;
      }
   }
}
