// Writes rows with the functions of panda. One request per input line:
//   TYPE KIND NAMES|- ENTRY...      KIND: named<= named= plain frac
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>

#include "algorithm_row_operations.h"
#include "big_integer.h"
#include "safe_integer.h"

template <typename I>
I read(const std::string& text)
{
   const bool negative = text[0] == '-';
   I result = static_cast<I>(0);
   for ( std::size_t i = negative ? 1 : 0; i < text.size(); ++i )
   {
      const I digit = static_cast<I>(text[i] - '0');
      result = static_cast<I>(result * static_cast<I>(10));
      if ( negative ) { result = static_cast<I>(result - digit); } else { result = static_cast<I>(result + digit); }
   }
   return result;
}

template <typename I>
void serve(std::istream& in)
{
   std::string kind, list, text;
   in >> kind >> list;
   panda::Names names;
   std::istringstream each(list);
   while ( list != "-" && std::getline(each, text, ',') ) { names.push_back(text); }
   panda::Row<I> row;
   while ( in >> text ) { row.push_back(read<I>(text)); }
   if ( kind == "named<=" ) { panda::algorithm::prettyPrint(std::cout, row, names, "<="); }
   else if ( kind == "named=" ) { panda::algorithm::prettyPrint(std::cout, row, names, "="); }
   else if ( kind == "plain" ) { std::cout << row; }
   else { panda::algorithm::printFractional(std::cout, row); }
   std::cout << '\n';
}

int main()
{
   std::string line, type;
   while ( std::getline(std::cin, line) )
   {
      std::istringstream in(line);
      in >> type;
      if ( type == "16" ) { serve<int16_t>(in); }
      else if ( type == "32" ) { serve<int32_t>(in); }
      else if ( type == "64" ) { serve<int64_t>(in); }
      else if ( type == "safe" ) { serve<panda::SafeInteger>(in); }
      else { serve<panda::BigInteger>(in); }
      std::cout.flush();
   }
}
