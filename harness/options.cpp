// Asks the functions that interpret the command line. One request per input line, arguments separated by tabs.
// Answer: name=value pairs separated by tabs; "error" where a function throws.
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "concurrency.h"
#include "input.h"
#include "input_detection.h"
#include "input_method.h"
#include "input_validity.h"
#include "integer_type_detection.h"

using namespace panda;

template <typename Callable>
void answer(const char* name, Callable&& callable)
{
   std::string value;
   try { value = callable(); } catch ( ... ) { value = "error"; }
   std::cout << name << '=' << value << '\t';
}

template <typename Data>
std::string describe(const Data& data)
{
   std::ostringstream out;
   out << std::get<3>(data).size() << ';';
   for ( const auto& row : std::get<0>(data) )
   {
      for ( std::size_t k = 0; k < row.size(); ++k ) { out << row[k] << (k + 1 < row.size() ? " " : ","); }
   }
   return out.str();
}

int main()
{
   for ( std::string line; std::getline(std::cin, line); )
   {
      std::vector<std::string> words{"panda"};
      if ( line != "-" )
      {
         std::string word;
         std::istringstream in(line.substr(1)); // starts with a mark, so that an empty argument can be told from none
         while ( std::getline(in, word, '\t') ) { words.push_back(word); }
         if ( line.back() == '\t' ) { words.push_back(""); }
         if ( line.size() == 1 ) { words.push_back(""); }
      }
      std::vector<char*> arguments;
      for ( auto& word : words ) { arguments.push_back(&word[0]); }
      arguments.push_back(nullptr);
      const int argc = static_cast<int>(words.size());
      char** argv = arguments.data();
      std::cout << "hardware=" << std::thread::hardware_concurrency() << '\t';
      OperationMode mode = OperationMode::Undecided;
      answer("mode", [&]() -> std::string
      {
         mode = detectOperationMode(argc, argv);
         switch ( mode )
         {
            case OperationMode::FacetEnumeration: return "facets";
            case OperationMode::VertexEnumeration: return "vertices";
            case OperationMode::HelpCommand: return "topic";
            case OperationMode::Help: return "help";
            case OperationMode::Version: return "version";
            default: return "error";
         }
      });
      if ( mode == OperationMode::FacetEnumeration || mode == OperationMode::VertexEnumeration )
      {
         answer("i", [&]() -> std::string
         {
            switch ( integerType(argc, argv) )
            {
               case IntegerType::Fixed16: return "16";
               case IntegerType::Fixed32: return "32";
               case IntegerType::Fixed64: return "64";
               case IntegerType::Safe: return "safe";
               case IntegerType::Variable: return "inf";
               default: return "default";
            }
         });
         answer("m", [&]() -> std::string { return input::method(argc, argv) == Method::DoubleDescription ? "dd" : "ad"; });
         answer("s", [&]() -> std::string
         {
            switch ( getInputOrder(argc, argv) )
            {
               case InputOrder::LexicographicAscending: return "lex_asc";
               case InputOrder::LexicographicDescending: return "lex_desc";
               case InputOrder::NonZeroEntriesAscending: return "nz_asc";
               case InputOrder::NonZeroEntriesDescending: return "nz_desc";
               case InputOrder::Reverse: return "rev";
               default: return "none";
            }
         });
         answer("t", [&]() { return std::to_string(concurrency::numberOfThreads(argc, argv)); });
         answer("c", [&]() -> std::string { return input::checkValidity(argc, argv) ? "yes" : "no"; });
         answer("file", [&]() { return getFilename(argc, argv); });
         answer("data", [&]() { return mode == OperationMode::FacetEnumeration ? describe(input::vertices<int>(argc, argv)) : describe(input::inequalities<int>(argc, argv)); });
      }
      std::cout << std::endl;
   }
}
