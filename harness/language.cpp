// Reads files with the program's own readers. One request per line: direction, file, optionally a file of known data; separated by tabs.
// Answer: "error", or names;rows;maps;known with rows separated by ',' and entries by blanks; images of a map by '|', terms as index:factor.
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "input.h"

using namespace panda;

template <typename Rows>
void print(const Rows& rows)
{
   for ( const auto& row : rows )
   {
      for ( const auto& value : row ) { std::cout << value << ' '; }
      std::cout << ',';
   }
}

template <typename Data>
void print_all(const Data& data)
{
   for ( const auto& name : std::get<1>(data) ) { std::cout << name << ' '; }
   std::cout << ';';
   print(std::get<0>(data));
   std::cout << ';';
   for ( const auto& map : std::get<2>(data) )
   {
      for ( const auto& image : map )
      {
         for ( const auto& term : image ) { std::cout << term.first << ':' << term.second << ' '; }
         std::cout << '|';
      }
      std::cout << ',';
   }
   std::cout << ';';
   print(std::get<3>(data));
}

int main()
{
   for ( std::string line; std::getline(std::cin, line); )
   {
      std::vector<std::string> words;
      std::istringstream in(line);
      for ( std::string word; std::getline(in, word, '\t'); ) { words.push_back(word); }
      std::vector<std::string> args{"panda", words[1]};
      if ( words.size() > 2 ) { args.push_back("-k"); args.push_back(words[2]); }
      std::vector<char*> argv;
      for ( auto& arg : args ) { argv.push_back(&arg[0]); }
      argv.push_back(nullptr);
      try
      {
         if ( words[0] == "inner" ) { print_all(input::vertices<int>(static_cast<int>(args.size()), argv.data())); }
         else { print_all(input::inequalities<int>(static_cast<int>(args.size()), argv.data())); }
      }
      catch ( ... ) { std::cout << "error"; }
      std::cout << std::endl;
   }
}
