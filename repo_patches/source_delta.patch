From 0b8e38ffe939c69fb84a59f99cdeabf7f309e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 01/35] fix: adjacency decomposition no longer loses ridges at
 infinity and skips the trivial row

The ridges of a facet were computed with the elimination that discards the row
(0, ..., 0, -1). For polyhedra that row is a trivial inequality, but as a ridge it is
a legitimate one (e.g. an edge pointing away from the origin in vertex enumeration), so
rows of the result could be missed. Conversely, the trivial row was reported when the
input is a simplicial cone.
---
 src/algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp  | 13 ++++++++++++-
 src/algorithm_fourier_motzkin_elimination.h    |  4 ++++
 src/algorithm_rotation.cpp                     | 16 ++++++++++++++--
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..7cd6223 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -17,6 +17,7 @@ namespace panda
    namespace algorithm
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      EXTERN template Matrix<Integer> fourierMotzkinEliminationComplete(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
    }
 }
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..55357f7 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -68,10 +68,21 @@ namespace
    /// Elimination of one ray.
    template <typename Bitset, typename Integer>
    void projection(Matrix<Integer>&, std::vector<Bitset>&, const Vertex<Integer>&, const Index);
+   /// Removes the row (0, ..., 0, -1), as it is a trivial inequality.
+   template <typename Integer>
+   void detectBadRow(Matrix<Integer>&);
 }
 
 template <typename Integer>
 Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)
+{
+   auto matrix = fourierMotzkinEliminationComplete(std::move(input));
+   detectBadRow(matrix);
+   return matrix;
+}
+
+template <typename Integer>
+Matrix<Integer> panda::algorithm::fourierMotzkinEliminationComplete(Matrix<Integer> input)
 {
    assert( !input.empty() );
    auto matrix = input;
@@ -127,6 +138,7 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    input.insert(input.begin(), used.cbegin(), used.cend());
    phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
    reinsertZeroColumns(matrix, zero_columns);
+   detectBadRow(matrix);
    return matrix;
 }
 
@@ -348,7 +360,6 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..1531762 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -22,6 +22,10 @@ namespace panda
       /// extremal vertices/rays is returned.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      /// Same as fourierMotzkinElimination, but does not discard the row (0, ..., 0, -1).
+      /// It's a trivial inequality for a polyhedron, but possibly a ridge of one of its facets.
+      template <typename Integer>
+      Matrix<Integer> fourierMotzkinEliminationComplete(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
       /// Output is guaranteed to contain only facets, but it is highly likely
       /// that it is not the complete set of facets.
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..290f579 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -30,6 +30,9 @@ namespace
    /// Returns all vertices that lie on the facet (satisfy the inequality with equality).
    template <typename Integer>
    Vertices<Integer> verticesWithZeroDistance(const Vertices<Integer>&, const Facet<Integer>&);
+   /// Checks for (0, ..., 0, -1), which is the face at infinity and not a facet of a polyhedron.
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>&);
 }
 
 template <typename Integer, typename TagType>
@@ -46,7 +49,10 @@ Matrix<Integer> panda::algorithm::rotation(const Matrix<Integer>& matrix,
    for ( const auto& ridge : ridges )
    {
       const auto new_row = rotate(matrix, furthest_vertex, input, ridge);
-      output.insert(new_row);
+      if ( !isTrivial(new_row) )
+      {
+         output.insert(new_row);
+      }
    }
    return classes(output, maps, tag);
 }
@@ -87,7 +93,7 @@ namespace
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
       assert( !vertices_on_facet.empty() );
-      return algorithm::fourierMotzkinElimination(vertices_on_facet);
+      return algorithm::fourierMotzkinEliminationComplete(vertices_on_facet);
    }
 
    template <typename Integer>
@@ -100,5 +106,11 @@ namespace
       });
       return selection;
    }
+
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>& facet)
+   {
+      return facet.back() == -1 && std::all_of(facet.cbegin(), facet.cend() - 1, [](const Integer& a) { return (a == 0); });
+   }
 }
 
-- 
2.43.0


From 5c197724c378a4d5908369fe9cb60394a9652184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 02/35] fix: substitute equations correctly in maps with
 several terms per image

The loop over the terms of an image overwrote the image it was iterating over, the
leading coefficient of the equation was ignored, and merging terms that cancel could
step in front of the image.
---
 src/algorithm_map_operations.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..22c553c 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -122,7 +122,9 @@ namespace
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
-      assert( equation[index] != 0 );
+      // The whole map is scaled by the leading coefficient to stay integral. This does not matter to inequalities.
+      assert( equation[index] > 0 );
+      const auto scale = static_cast<Factor>(equation[index]);
       for ( auto& image : map )
       {
          Image new_image;
@@ -140,10 +142,10 @@ namespace
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, term.second * scale));
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
@@ -176,7 +178,6 @@ namespace
                if ( image[i].second == 0 )
                {
                   image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
                }
                --i; // decrement i because we erased the next item
             }
-- 
2.43.0


From 16cfef440085028cb45a982e32ff364b6b8779c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 03/35] fix: insert the termination marker of the job list
 while holding its mutex

List::get modified the set of rows before locking, racing with other threads that put
rows or read the set.
---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..bd689d2 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
       std::unique_lock<std::mutex> lock(mutex);
+      const auto it = rows.insert(Row<Integer>{}).first;
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From eb059bf5381737b56f478819942ea66807d019da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 04/35] fix: sign of quotients and remainders of negative
 BigIntegers

The division of magnitudes applied the sign of the dividend and operator/= applied it
once more, so dividing a negative number that does not fit into int gave the wrong sign.
The remainder of a negative multiple was the divisor instead of zero.
---
 src/big_integer.cpp             | 13 +------------
 src/big_integer_arithmetics.cpp |  8 +++++++-
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..acac7a2 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -90,7 +90,7 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
 {
    if ( isMagnitudeSmallerThan(second) )
    {
-      BigInteger remainder = *this;
+      BigInteger remainder = abs(*this);
       *this = BigInteger(0);
       return remainder;
    }
@@ -99,11 +99,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
       *this = BigInteger(1);
       return BigInteger(0);
    }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +114,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..36c2272 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -172,7 +172,12 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto is_negative = isNegative();
       *this = divideMagnitudesWithRemainder(second);
+      if ( is_negative && !isZero() )
+      {
+         *this = second - *this;
+      }
       return *this;
    }
 }
@@ -273,7 +278,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger(((remainder < 0) ? b : 0) + remainder);
       return first;
    }
 }
-- 
2.43.0


From 6a1accbc80903727f46eb13a0cbfba286c5053cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 05/35] fix: comparisons and conversion of BigInteger at the
 minimum of int

The absolute value of the smallest int was computed as an int, which overflows.
---
 src/big_integer_comparisons.cpp  | 6 +++---
 src/big_integer_constructors.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..8f01275 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -21,7 +21,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == ((value >= 0) ? static_cast<DataType>(value) : 0 - static_cast<DataType>(value));
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +41,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > 0 - static_cast<DataType>(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +58,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < 0 - static_cast<DataType>(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..260b574 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return -static_cast<int>(data[0] - 1) - 1;
    }
 }
 
-- 
2.43.0


From a244480adf47f754861d6198c0819f15120f1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 06/35] fix: reject malformed vertices and rays instead of
 dropping the rest of the section

A token that is not a rational number (abc, 0.5, 1:) ended the section
silently (or never, for rays), and the hull of the remaining rows was
reported. Values that do not fit the integer type were truncated.
---
 src/input_vertex.cpp | 86 ++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 27 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..f1a1b21 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -7,10 +7,13 @@
 #include "input_vertex.h"
 
 #include <cassert>
+#include <limits>
+#include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
+#include <vector>
 
-#include "algorithm_row_operations.h"
 #include "input_common.h"
 #include "input_keywords.h"
 #include "istream_peek_line.h"
@@ -48,10 +51,6 @@ ConicalHull<int> panda::input::implementation::verticesConical(std::istream& str
          ray.back() = 0;
          cone.push_back(ray);
       }
-      else
-      {
-         stream.clear();
-      }
    }
    if ( stream && isKeywordEnd(firstWord(peekLine(stream))) )
    {
@@ -110,52 +109,85 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 namespace
 {
    using namespace input;
-   Row<int> vertex(std::istream& stream)
+   using Wide = long long;
+
+   Wide readInteger(std::istream& stream, const std::string& id)
+   {
+      int value;
+      if ( !(stream >> value) )
+      {
+         errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+      }
+      return value;
+   }
+
+   /// Ensures that all intermediate and final values fit the type of the result.
+   Wide checkedRange(const Wide value, const std::string& id)
+   {
+      if ( value > std::numeric_limits<int>::max() || value < std::numeric_limits<int>::min() )
+      {
+         errorWithLineInformation<std::invalid_argument>("Coordinates of vertex / ray are too large", id);
+      }
+      return value;
+   }
+
+   Wide gcd(Wide a, Wide b)
    {
+      while ( b != 0 )
+      {
+         a %= b;
+         std::swap(a, b);
+      }
+      return (a < 0) ? -a : a;
+   }
+
+   /// Reads exactly one line. Anything that is not a vector of rational numbers is an error.
+   Row<int> vertex(std::istream& file)
+   {
+      std::string line;
+      std::getline(file, line);
+      std::istringstream stream(line);
       skipWhitespace(stream);
       const auto id = isIdentifier(stream) ? identifier(stream) : "";
       skipWhitespace(stream);
-      Row<int> numerator;
-      Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      std::vector<Wide> numerator;
+      std::vector<Wide> denominator;
+      while ( stream.peek() != std::istream::traits_type::eof() )
       {
-         numerator.push_back(tmp);
+         numerator.push_back(readInteger(stream, id));
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
-            if ( tmp == 0 )
+            denominator.push_back(readInteger(stream, id));
+            if ( denominator.back() == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
             }
-            denominator.push_back(tmp);
+            skipWhitespace(stream);
          }
          else
          {
             denominator.push_back(1);
          }
-         skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
-         }
       }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
       {
-         return numerator;
+         return {};
       }
-      const auto lcm_value = algorithm::lcm(denominator);
-      if ( lcm_value > 0 )
+      Wide lcm_value{1};
+      for ( const auto value : denominator )
       {
-         for ( std::size_t i = 0; i < numerator.size(); ++i )
-         {
-            numerator[i] *= lcm_value / denominator[i];
-         }
+         lcm_value = checkedRange(lcm_value / gcd(lcm_value, value) * ((value < 0) ? -value : value), id);
+      }
+      Row<int> row;
+      for ( std::size_t i = 0; i < numerator.size(); ++i )
+      {
+         row.push_back(static_cast<int>(checkedRange(numerator[i] * (lcm_value / denominator[i]), id)));
       }
-      numerator.push_back(lcm_value);
-      return numerator;
+      row.push_back(static_cast<int>(lcm_value));
+      return row;
    }
 }
 
-- 
2.43.0


From b71dd3af45eb474e2b431f010d230ce12d9cb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 07/35] fix: recognise the documented dimension field DIM=N

Only the bare keyword was recognised, so the field was ignored and the
announced consistency check of the dimension never took place.
---
 src/input.cpp          |  5 ++++-
 src/input_keywords.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..3b363cb 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -333,7 +333,10 @@ namespace
          throw std::invalid_argument("Failed to open file \"" + filename + "\".");
       }
       std::string token;
-      input::advanceToNextKeyword(file, token);
+      while ( input::advanceToNextKeyword(file, token) && input::implementation::isKeywordDimension(token) )
+      {
+         std::getline(file, token);
+      }
       if ( input::implementation::isKeywordInequalities(token) )
       {
          return readInequalities(argc, argv, file, names, {});
diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..2a08330 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -105,16 +105,14 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
            string == "Reduced Vertices:");
 }
 
-bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
+bool panda::input::implementation::isKeywordDimension(const std::string& line) noexcept
 {
+   // the keyword shares its line with the value, e.g. "DIM=3" or "DIM = 3".
+   const auto string = trimWhitespace(line.substr(0, line.find('=')));
    return (string == "DIM" ||
-           string == "DIM=" ||
            string == "DIMENSION" ||
-           string == "DIMENSION=" ||
            string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+           string == "Dimension");
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 4de8ed8c43f1dd67dbfc6cd14cab10b4792206e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 08/35] fix: reject maps whose number of images differs from
 the number of names

Missing images were taken as zero, surplus images started another map, and
maps without names were read forever.
---
 src/input_map.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..037a883 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -132,12 +132,21 @@ namespace
       skipWhitespace(stream);
       std::size_t index{0};
       // tokenize (read std::strings from stream before the next line break)
-      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) && index < result.size() )
+      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
          std::string token;
          stream >> token;
+         if ( index == result.size() )
+         {
+            throw std::invalid_argument("There are more images than names (excess token \"" + token + "\").");
+         }
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index != result.size() )
+      {
+         throw std::invalid_argument("There are fewer images than names.");
       }
       return result;
    }
-- 
2.43.0


From 9657ef81d646ac88d742ca8295b6fa34df2a27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 09/35] fix: detect named variables in a row from that row and
 from all names

A name that is a prefix of an earlier one (x1 after x10) was not found, and
the search went on into the following rows.
---
 src/input_common.cpp | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..0fb15b8 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -196,32 +196,11 @@ std::string panda::input::trimWhitespace(std::string string)
 
 bool panda::input::containsNames(const Names& names, std::istream& stream)
 {
-   const auto stream_position = stream.tellg();
-   const auto guard = makeScopeGuard([&]()
+   const auto line = peekLine(stream);
+   return std::any_of(names.cbegin(), names.cend(), [&](const Name& name)
    {
-      stream.clear();
-      stream.seekg(stream_position);
+      return line.find(name) != std::string::npos;
    });
-   std::size_t counter = 0;
-   constexpr std::size_t max_counter = 2000; // this constant is actually arbitrary. We simply assume that if the first 2000 tokens do not contain a name, it will hold for the rest as well.
-   while ( stream && counter < max_counter )
-   {
-      auto position = names.cbegin();
-      std::string word = "";
-      while ( stream && position != names.cend() )
-      {
-         const auto character = static_cast<char>(stream.get());
-         word.append(1, character);
-         position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
-         {
-            return true;
-         }
-         ++counter;
-      }
-   }
-   // assuming that if a name occurs it will do so in the first few characters
-   return false;
 }
 
 Row<int> panda::input::normalize(Row<int> row, RelationOperator relation)
-- 
2.43.0


From ca1606cb6d6f3e8326e8192bc31736dd96008b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 10/35] fix: reject partially numeric coefficients and dangling
 signs in named constraints

---
 src/input_common.cpp                     | 2 +-
 src/input_constraint_named_variables.cpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 0fb15b8..d783b2f 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -224,7 +224,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..510969f 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -51,6 +51,10 @@ namespace
       const auto factor = toInt(token.substr(0, end_of_factor));
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
+         if ( token.find_first_of("0123456789") == std::string::npos )
+         {
+            errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+         }
          // c.f. algorithm_inequality_operations.tpp: the rhs is stored negated.
          return std::make_pair(names.size(), -factor);
       }
@@ -103,6 +107,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
-- 
2.43.0


From 1dc8fb685722522ecb9e77c1a7e615d546fba1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 11/35] fix: check the dimension of equations and known data as
 well

Rows of a different length were accessed out of bounds.
---
 src/input.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index 3b363cb..c66a422 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -164,14 +164,14 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
          std::getline(file, token);
       }
    }
-   implementation::checkConsistency(conv, cone, names, maps, dimension);
+   auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
    sort(argc, argv, cone);
    sort(argc, argv, conv);
    Matrix<int> vertices;
    vertices.reserve(cone.size() + conv.size());
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
-   auto known_facets = knownFacets(argc, argv, names);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -235,10 +235,18 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(equation);
       inequalities.push_back(-1 * equation);
    }
+   implementation::checkConsistency(inequalities, names, dimension); // now including the equations
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   for ( const auto& vertex : known_vertices )
+   {
+      if ( vertex.size() != inequalities.back().size() )
+      {
+         throw std::invalid_argument("Invalid input data: Inconsistent dimensions (a known vertex / ray is invalid).");
+      }
+   }
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
-- 
2.43.0


From c31c064a9c524f5591a9e68239100aab861b0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 12/35] fix: option --check also verifies maps that follow the
 vertices, rays or inequalities

The check ran while reading the section, with the maps known by then: none,
if the maps come last in the file.
---
 src/input.cpp | 57 ++++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index c66a422..52c2569 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -47,15 +47,6 @@ namespace
 
 namespace
 {
-   Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
-   {
-      const auto conv = input::implementation::verticesConvex(file);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfVertexClasses(conv, maps);
-      }
-      return conv;
-   }
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
@@ -66,15 +57,6 @@ namespace
       expandVertices(conv, maps);
       return conv;
    }
-   Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
-   {
-      const auto cone = input::implementation::verticesConical(file);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfVertexClasses(cone, maps);
-      }
-      return cone;
-   }
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
@@ -85,15 +67,6 @@ namespace
       expandVertices(cone, maps);
       return cone;
    }
-   Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
-   {
-      const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
-      }
-      return inequalities;
-   }
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
@@ -125,6 +98,8 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
+   bool conv_reduced = false;
+   bool cone_reduced = false;
    if ( !implementation::containsKeywords(file) )
    {
       throw std::invalid_argument("An inner description must be given in PANDA format.");
@@ -145,19 +120,23 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
-         conv = readVerticesConvex(argc, argv, file, maps);
+         conv = input::implementation::verticesConvex(file);
+         conv_reduced = false;
       }
       else if ( implementation::isKeywordReducedConvexHull(token) )
       {
          conv = readVerticesReducedConvex(argc, argv, file, maps);
+         conv_reduced = true;
       }
       else if ( implementation::isKeywordConicalHull(token) )
       {
-         cone = readVerticesConical(argc, argv, file, maps);
+         cone = input::implementation::verticesConical(file);
+         cone_reduced = false;
       }
       else if ( implementation::isKeywordReducedConicalHull(token) )
       {
          cone = readVerticesReducedConical(argc, argv, file, maps);
+         cone_reduced = true;
       }
       else
       {
@@ -166,6 +145,11 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    }
    auto known_facets = knownFacets(argc, argv, names);
    implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
+   if ( input::checkValidity(argc, argv) ) // only now, as the maps may follow the vertices / rays.
+   {
+      implementation::checkValidityOfVertexClasses(conv_reduced ? Vertices<int>{} : conv, maps);
+      implementation::checkValidityOfVertexClasses(cone_reduced ? Vertices<int>{} : cone, maps);
+   }
    sort(argc, argv, cone);
    sort(argc, argv, conv);
    Matrix<int> vertices;
@@ -193,6 +177,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
+   bool reduced = false;
    if ( !implementation::containsKeywords(file) )
    {
       throw std::invalid_argument("An outer description must be given in PANDA format.");
@@ -217,11 +202,13 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
       else if ( implementation::isKeywordInequalities(token) )
       {
-         inequalities = readInequalities(argc, argv, file, names, maps);
+         inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+         reduced = false;
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
          inequalities = readReducedInequalities(argc, argv, file, names, maps, equations);
+         reduced = true;
       }
       else
       {
@@ -229,6 +216,10 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
    }
    implementation::checkConsistency(inequalities, names, dimension);
+   if ( input::checkValidity(argc, argv) && !reduced ) // only now, as the maps may follow the inequalities.
+   {
+      implementation::checkValidityOfInequalityClasses(inequalities, maps);
+   }
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
    {
@@ -347,7 +338,7 @@ namespace
       }
       if ( input::implementation::isKeywordInequalities(token) )
       {
-         return readInequalities(argc, argv, file, names, {});
+         return input::implementation::constraints<ConstraintType::Inequality>(file, names);
       }
       throw std::invalid_argument("Expected no other keyword than \"Inequalities\" in a file containing known facets.");
    }
@@ -370,11 +361,11 @@ namespace
       {
          if ( input::implementation::isKeywordConvexHull(token) )
          {
-            conv = readVerticesConvex(argc, argv, file, {});
+            conv = input::implementation::verticesConvex(file);
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
-            cone = readVerticesConical(argc, argv, file, {});
+            cone = input::implementation::verticesConical(file);
          }
          else
          {
-- 
2.43.0


From f14e37aef33fe5e1adc3ba6b1e9091b1399b6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 13/35] fix: option --check accepts maps on rows that are not
 primitive

Images are divided by their gcd, but were compared with rows as given.
---
 src/input_validity.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..93fe504 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -24,6 +24,7 @@ namespace
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   Matrix<int> primitive(Matrix<int>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -59,18 +60,20 @@ void panda::input::implementation::checkValidityOfVertices(const Matrix<int>& ma
 /// Input is considered valid if and only if each map is a bijection on the set of inequalities.
 void panda::input::implementation::checkValidityOfInequalityClasses(const Inequalities<int>& inequalities, const Maps& maps)
 {
+   const auto rows = primitive(inequalities);
    for ( const auto& map : maps )
    {
-      checkValidityInequalities(inequalities, map);
+      checkValidityInequalities(rows, map);
    }
 }
 
 /// Input is considered valid if and only if each map is a bijection on the set of vertices.
 void panda::input::implementation::checkValidityOfVertexClasses(const Vertices<int>& vertices, const Maps& maps)
 {
+   const auto rows = primitive(vertices);
    for ( const auto& map : maps )
    {
-      checkValidityVertices(vertices, map);
+      checkValidityVertices(rows, map);
    }
 }
 
@@ -213,6 +216,20 @@ namespace
       }
    }
 
+   /// The image of a row under a map is divided by its gcd, hence rows must be too in order to be comparable.
+   Matrix<int> primitive(Matrix<int> matrix)
+   {
+      for ( auto& row : matrix )
+      {
+         const auto gcd_value = algorithm::gcd(row);
+         if ( gcd_value > 1 )
+         {
+            row /= gcd_value;
+         }
+      }
+      return matrix;
+   }
+
    void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
    {
       std::vector<std::size_t> indices(matrix.size());
-- 
2.43.0


From 90843f5b899d6101e864b4acb812bf12cbf8476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 14/35] fix: expand reduced inequalities modulo the equations
 of the input

Rows were not normalized with the equations before maps were applied,
equations were assumed to be in echelon form, and equations that follow the
inequalities were ignored.
---
 src/input.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index 52c2569..e700ebc 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -67,9 +67,18 @@ namespace
       expandVertices(cone, maps);
       return cone;
    }
-   Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
+   /// Equations in echelon form with positive leading coefficients: the form that normalization relies on.
+   Equations<int> canonicalEquations(const Equations<int>& equations)
+   {
+      if ( equations.empty() )
+      {
+         return equations;
+      }
+      const auto kernel = algorithm::extractEquations(equations);
+      return kernel.empty() ? equations : algorithm::extractEquations(kernel);
+   }
+   void expandReducedInequalities(int argc, char** argv, Inequalities<int>& inequalities, const Maps& maps, const Equations<int>& equations)
    {
-      auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -78,9 +87,12 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
-      expandInequalities(inequalities, tmp_maps);
-      return inequalities;
+      const auto canonical_equations = canonicalEquations(equations);
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, canonical_equations);
+      }
+      expandInequalities(inequalities, algorithm::normalize(maps, canonical_equations));
    }
 }
 
@@ -207,7 +219,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
-         inequalities = readReducedInequalities(argc, argv, file, names, maps, equations);
+         inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
          reduced = true;
       }
       else
@@ -216,7 +228,15 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
    }
    implementation::checkConsistency(inequalities, names, dimension);
-   if ( input::checkValidity(argc, argv) && !reduced ) // only now, as the maps may follow the inequalities.
+   if ( !equations.empty() )
+   {
+      implementation::checkConsistency(equations, names, inequalities.front().size() - 1);
+   }
+   if ( reduced ) // only now, as the equations may follow the inequalities.
+   {
+      expandReducedInequalities(argc, argv, inequalities, maps, equations);
+   }
+   else if ( input::checkValidity(argc, argv) ) // only now, as the maps may follow the inequalities.
    {
       implementation::checkValidityOfInequalityClasses(inequalities, maps);
    }
@@ -226,7 +246,6 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(equation);
       inequalities.push_back(-1 * equation);
    }
-   implementation::checkConsistency(inequalities, names, dimension); // now including the equations
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
-- 
2.43.0


From ee88ddf13e3432409667673233b5c6b386d2498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 15/35] fix: options with attached parameters (-m=dd, -s=rev,
 ...) do not swallow the file name

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..e13cf25 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -126,7 +126,8 @@ namespace
 {
    bool requiresParameter(char* argument) noexcept
    {
-      return (std::strcmp(argument, "-c") != 0 && // --check
+      return (std::strchr(argument, '=') == nullptr && // parameter is attached, e.g. "-s=rev"
+              std::strcmp(argument, "-c") != 0 && // --check
               std::strcmp(argument, "-f") != 0);  // --filter
    }
 
-- 
2.43.0


From 646519de7c49488b2f596f603368937056e74e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 16/35] fix: print values exactly for every integer type

---
 src/algorithm_row_operations.cpp | 31 +++----------------------------
 src/algorithm_row_operations.h   | 10 ----------
 src/big_integer.cpp              | 20 ++++++++++++++++++++
 src/big_integer.h                |  6 ++++++
 src/safe_integer.h               |  9 +++++++++
 src/safe_integer.tpp             |  6 ++++++
 6 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 80bc075..d17662d 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -17,18 +17,11 @@
 
 #include "algorithm_inequality_operations.h"
 #include "algorithm_integer_operations.h"
-#include "cast.h"
 
 using namespace panda;
 
 template <typename Integer>
 std::ostream& operator<<(std::ostream& output, const Row<Integer>& row)
-{
-   return (output << cast<int>(row));
-}
-
-template <>
-std::ostream& operator<<(std::ostream& output, const Row<int>& row)
 {
    for ( const auto& e : row )
    {
@@ -43,12 +36,6 @@ std::ostream& operator<<(std::ostream& output, const Row<int>& row)
 
 template <typename Integer>
 void panda::algorithm::prettyPrint(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
-{
-   prettyPrint(output, cast<int>(row), names, relation);
-}
-
-template <>
-void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, const Names& names, const char* relation)
 {
    if ( names.empty() )
    {
@@ -93,12 +80,6 @@ void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, co
 
 template <typename Integer>
 void panda::algorithm::prettyPrintln(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
-{
-   prettyPrintln(output, cast<int>(row), names, relation);
-}
-
-template <>
-void panda::algorithm::prettyPrintln(std::ostream& output, const Row<int>& row, const Names& names, const char* relation)
 {
    prettyPrint(output, row, names, relation);
    output << '\n';
@@ -106,25 +87,19 @@ void panda::algorithm::prettyPrintln(std::ostream& output, const Row<int>& row,
 
 template <typename Integer>
 void panda::algorithm::printFractional(std::ostream& stream, const Vertex<Integer>& vertex)
-{
-   printFractional(stream, cast<int>(vertex));
-}
-
-template <>
-void panda::algorithm::printFractional(std::ostream& stream, const Vertex<int>& vertex)
 {
    assert( !vertex.empty() );
    assert( vertex.back() != 0 );
    const auto denominator_is_negative = (vertex.back() < 0);
-   const auto denominator = ((denominator_is_negative) ? -1 : 1) * vertex.back();
+   const auto denominator = static_cast<Integer>((denominator_is_negative) ? -vertex.back() : vertex.back());
    for ( std::size_t i = 0; i + 1 < vertex.size(); ++i )
    {
       const auto gcd_value = gcd(vertex[i], denominator);
       assert( gcd_value != 0 );
-      stream << ((denominator_is_negative) ? -1 : 1) * vertex[i] / gcd_value;
+      stream << static_cast<Integer>(static_cast<Integer>((denominator_is_negative) ? -vertex[i] : vertex[i]) / gcd_value);
       if ( denominator / gcd_value != 1 )
       {
-         stream << '/' << denominator / gcd_value;
+         stream << '/' << static_cast<Integer>(denominator / gcd_value);
       }
       stream << ' ';
    }
diff --git a/src/algorithm_row_operations.h b/src/algorithm_row_operations.h
index c5aa982..5e56498 100644
--- a/src/algorithm_row_operations.h
+++ b/src/algorithm_row_operations.h
@@ -16,8 +16,6 @@
 /// Unnamed output of a row.
 template <typename Integer>
 std::ostream& operator<<(std::ostream&, const panda::Row<Integer>&);
-template <>
-std::ostream& operator<<(std::ostream&, const panda::Row<int>&);
 
 /// Addition of a row onto another.
 template <typename Integer>
@@ -72,14 +70,6 @@ namespace panda
       /// Unnamed output of a vertex that may have fractional values.
       template <typename Integer>
       void printFractional(std::ostream&, const Vertex<Integer>&);
-
-      // explicit instantiations for type int:
-      template <>
-      void prettyPrint(std::ostream&, const Row<int>&, const Names&, const char*);
-      template <>
-      void prettyPrintln(std::ostream&, const Row<int>&, const Names&, const char*);
-      template <>
-      void printFractional(std::ostream&, const Vertex<int>&);
    }
 }
 
diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index acac7a2..d180b84 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <limits>
+#include <ostream>
 #include <stdexcept>
 
 using namespace panda;
@@ -86,6 +87,20 @@ BigInteger panda::abs(BigInteger input) noexcept
    return input;
 }
 
+std::string panda::BigInteger::toString() const
+{
+   std::string digits;
+   const BigInteger base(1000000000);
+   auto rest = abs(*this);
+   while ( !rest.isMagnitudeSmallerThan(base) )
+   {
+      const int block = rest.divideMagnitudesWithRemainder(base); // rest becomes the quotient.
+      const auto block_digits = std::to_string(block);
+      digits = std::string(9 - block_digits.size(), '0') + block_digits + digits;
+   }
+   return (isNegative() ? "-" : "") + std::to_string(static_cast<int>(rest)) + digits;
+}
+
 BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& second)
 {
    if ( isMagnitudeSmallerThan(second) )
@@ -238,3 +253,8 @@ void panda::BigInteger::setZero()
    sign = Sign::Positive;
 }
 
+std::ostream& operator<<(std::ostream& output, const panda::BigInteger& value)
+{
+   return (output << value.toString());
+}
+
diff --git a/src/big_integer.h b/src/big_integer.h
index 7cad18d..280a084 100644
--- a/src/big_integer.h
+++ b/src/big_integer.h
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iosfwd>
+#include <string>
 #include <vector>
 
 namespace panda
@@ -97,6 +98,8 @@ namespace panda
          BigInteger operator-() const;
          /// Absolute value.
          friend BigInteger abs(BigInteger) noexcept;
+         /// Decimal representation.
+         std::string toString() const;
       private:
          /// Underlying data type.
          using DataType = uint_fast32_t;
@@ -143,3 +146,6 @@ namespace panda
    };
 }
 
+/// Output in decimal representation.
+std::ostream& operator<<(std::ostream&, const panda::BigInteger&);
+
diff --git a/src/safe_integer.h b/src/safe_integer.h
index ccb0b81..feabb17 100644
--- a/src/safe_integer.h
+++ b/src/safe_integer.h
@@ -8,6 +8,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <iosfwd>
 
 namespace panda
 {
@@ -15,7 +16,13 @@ namespace panda
 
    /// Absolute value.
    inline SafeInteger abs(SafeInteger);
+}
+
+/// Output.
+inline std::ostream& operator<<(std::ostream&, const panda::SafeInteger&);
 
+namespace panda
+{
    class SafeInteger
    {
       public:
@@ -106,6 +113,8 @@ namespace panda
          inline SafeInteger operator-() const;
          /// Absolute value.
          friend SafeInteger abs(SafeInteger);
+         /// Output.
+         friend std::ostream& ::operator<<(std::ostream&, const SafeInteger&);
       public:
          /// Underlying data type.
          using DataType = int64_t;
diff --git a/src/safe_integer.tpp b/src/safe_integer.tpp
index 71b6e62..2de344c 100644
--- a/src/safe_integer.tpp
+++ b/src/safe_integer.tpp
@@ -5,6 +5,7 @@
 //-------------------------------------------------------------------------------//
 
 #include <limits>
+#include <ostream>
 #include <stdexcept>
 #include <string>
 
@@ -40,6 +41,11 @@ panda::SafeInteger panda::abs(SafeInteger n)
    return (n < 0) ? -n : n;
 }
 
+std::ostream& operator<<(std::ostream& output, const panda::SafeInteger& value)
+{
+   return (output << value.data);
+}
+
 namespace panda
 {
    namespace
-- 
2.43.0


From 96dc7f27e2d9cfcb3d7cbfa5f67f36e4771aba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 17/35] fix: BigInteger operations when both operands are the
 same object

---
 src/big_integer_arithmetics.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 36c2272..8da54e0 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -49,8 +49,9 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       auto copy = *this;
+      const auto factor = second; // second may be *this.
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor.data )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
@@ -61,7 +62,7 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
             }
          }
       }
-      if ( second.sign == Sign::Negative )
+      if ( factor.sign == Sign::Negative )
       {
          flipSign();
       }
@@ -89,9 +90,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
+      const auto is_negative = (sign != second.sign); // before the division, as second may be *this.
       auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      if ( is_negative )
       {
          flipSign();
       }
-- 
2.43.0


From c7dedd334d653e05acb6c1e7f43fe6c4878717e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 18/35] fix: fail visibly if a factor of a map exceeds its type

---
 src/algorithm_map_operations.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 22c553c..04a3e12 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -13,6 +13,8 @@
 #include <iostream>
 
 #include "algorithm_row_operations.h"
+#include "big_integer.h"
+#include "safe_integer.h"
 
 using namespace panda;
 
@@ -118,13 +120,32 @@ namespace
       }
    }
 
+   /// Multiplication of factors. Throws if the result does not fit into a factor.
+   template <typename Integer>
+   Factor multiply(const Factor& first, const Integer& second)
+   {
+      return static_cast<Factor>(SafeInteger(first) * SafeInteger(second));
+   }
+
+   /// Multiplication of factors. Throws if the result does not fit into a factor.
+   Factor multiply(const Factor& first, const BigInteger& second)
+   {
+      return multiply(first, static_cast<int>(second));
+   }
+
+   /// Multiplication of factors. Throws if the result does not fit into a factor.
+   Factor multiply(const Factor& first, const SafeInteger& second)
+   {
+      return multiply(first, static_cast<int>(second));
+   }
+
    /// Use equation to get eliminated index back to zero.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       // The whole map is scaled by the leading coefficient to stay integral. This does not matter to inequalities.
       assert( equation[index] > 0 );
-      const auto scale = static_cast<Factor>(equation[index]);
+      const auto& scale = equation[index];
       for ( auto& image : map )
       {
          Image new_image;
@@ -136,13 +157,13 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, multiply(-term.second, equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(std::make_pair(term.first, term.second * scale));
+               new_image.push_back(std::make_pair(term.first, multiply(term.second, scale)));
             }
          }
          image = new_image;
@@ -173,7 +194,7 @@ namespace
          {
             if ( image[i].first == image[i + 1].first ) // same Index
             {
-               image[i].second += image[i + 1].second; // merge factors
+               image[i].second = static_cast<Factor>(SafeInteger(image[i].second) + SafeInteger(image[i + 1].second)); // merge factors
                image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
                if ( image[i].second == 0 )
                {
-- 
2.43.0


From da280117ad2fbcab228bf75eb2c57ed4faf2b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 19/35] fix: reject illegal arguments to --sorting instead of
 reading beyond them

---
 src/input_detection.cpp | 56 ++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index e13cf25..e81ba06 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -166,58 +166,46 @@ namespace
       return words;
    }
 
-   bool ascending(char* argument) noexcept
+   /// Interprets what follows the name of a criterion: nothing or a direction.
+   bool ascending(const std::string& direction)
    {
-      return (std::strncmp(argument, "desc", 4) != 0 &&
-              std::strncmp(argument, "down", 4) != 0 &&
-              std::strncmp(argument, "dec", 3) != 0);
-   }
-
-   InputOrder inputOrderLexicographic(char* argument) noexcept
-   {
-      if ( std::strcmp(argument, "lex") == 0 || std::strcmp(argument, "lexicographic") == 0 )
+      if ( direction.empty() || direction == "_asc" || direction == "_ascending" || direction == "_up" )
       {
-         return InputOrder::LexicographicAscending;
+         return true;
       }
-      const auto offset = (std::strncmp(argument, "lex_", 4) == 0) ? 4 : 14;
-      if ( ascending(argument + offset) )
+      if ( direction == "_desc" || direction == "_descending" || direction == "_down" || direction == "_dec" || direction == "_decreasing" )
       {
-         return InputOrder::LexicographicAscending;
-      }
-      else
-      {
-         return InputOrder::LexicographicDescending;
+         return false;
       }
+      throw std::invalid_argument("Illegal argument to option \"--sorting\".\n");
    }
 
-   InputOrder inputOrderNonZeroEntries(char* argument) noexcept
+   /// Removes one of the names of a criterion from the front of the argument. Returns false, if there is none.
+   bool removeCriterion(std::string& argument, const char* short_name, const char* long_name)
    {
-      if ( std::strcmp(argument, "nz") == 0 || std::strcmp(argument, "nonzero") == 0 )
+      for ( const std::string name : {long_name, short_name} )
       {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      const int offset = (std::strncmp(argument, "nz_", 3) == 0) ? 3 : 8;
-      if ( ascending(argument + offset) )
-      {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      else
-      {
-         return InputOrder::NonZeroEntriesDescending;
+         if ( argument.compare(0, name.size(), name) == 0 )
+         {
+            argument.erase(0, name.size());
+            return true;
+         }
       }
+      return false;
    }
 
    InputOrder inputOrder(char* argument)
    {
-      if ( std::strncmp(argument, "lex", 3) == 0 )
+      std::string rest(argument);
+      if ( removeCriterion(rest, "lex", "lexicographic") )
       {
-         return inputOrderLexicographic(argument);
+         return ascending(rest) ? InputOrder::LexicographicAscending : InputOrder::LexicographicDescending;
       }
-      if ( std::strncmp(argument, "n", 1) == 0 )
+      if ( removeCriterion(rest, "nz", "nonzero") )
       {
-         return inputOrderNonZeroEntries(argument);
+         return ascending(rest) ? InputOrder::NonZeroEntriesAscending : InputOrder::NonZeroEntriesDescending;
       }
-      if ( std::strcmp(argument, "rev") == 0 || std::strcmp(argument, "reverse") == 0 )
+      if ( rest == "rev" || rest == "reverse" )
       {
          return InputOrder::Reverse;
       }
-- 
2.43.0


From d204b261df9fe2d42ab782b4c58f58af06e8bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:55 +0000
Subject: [PATCH 20/35] fix: help for every listed command and the real name of
 --check

---
 src/help.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/help.cpp b/src/help.cpp
index 4e4bed1..da881d6 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -73,8 +73,8 @@ namespace
                 << "To enable checked input, add the parameter \"-c\" / \"--check\" to the command line.\n"
                 << "Example usage:\n"
                 << "t./" << project::binary_name << " myproblem -c\n"
-                << "t./" << project::binary_name << " myproblem --checked\n"
-                << "t./" << project::binary_name << " myproblem -k my_known_facets --checked\n";
+                << "t./" << project::binary_name << " myproblem --check\n"
+                << "t./" << project::binary_name << " myproblem -k my_known_facets --check\n";
    }
 
    void printHelpCommandHelp()
@@ -189,7 +189,7 @@ namespace
       {
          printHelpCommandCheck();
       }
-      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "?" )
+      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "help-command" || command == "--help-command" || command == "?" )
       {
          printHelpCommandHelp();
       }
@@ -197,7 +197,7 @@ namespace
       {
          printHelpCommandIntegerType();
       }
-      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" )
+      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known-facets" || command == "--known-facets" || command == "known_vertices" || command == "--known_vertices" || command == "known-vertices" || command == "--known-vertices" || command == "known_data" || command == "--known_data" || command == "known-data" || command == "--known-data" )
       {
          printHelpCommandKnownData();
       }
@@ -213,7 +213,7 @@ namespace
       {
          printHelpCommandThreads();
       }
-      else if ( command == "v" || command == "-v" || command == "version" || command == "-version" || command == "--version" )
+      else if ( command == "v" || command == "-v" || command == "--v" || command == "version" || command == "-version" || command == "--version" )
       {
          printHelpCommandVersion();
       }
-- 
2.43.0


From 2e98b57b3310a616df96ac40e4551907fa5f9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 21/35] fix: equations next to vertices or rays are refused
 like inequalities

---
 src/input_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index e81ba06..35d9718 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -154,7 +154,7 @@ namespace
          {
             words.insert(Keyword::ConvexHull);
          }
-         else if ( isKeywordInequalities(line) )
+         else if ( isKeywordInequalities(line) || isKeywordEquations(line) )
          {
             words.insert(Keyword::Inequalities);
          }
-- 
2.43.0


From 7323d5699aaf6e75761f3c0803061726bd869d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 22/35] fix: empty file name for known data is an error

---
 src/input.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index e700ebc..d6315c8 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -266,6 +266,15 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
 
 namespace
 {
+   std::string checkedFilename(const std::string& filename)
+   {
+      if ( filename.empty() )
+      {
+         throw std::invalid_argument("Expected argument to option \"--known-data\".");
+      }
+      return filename;
+   }
+
    std::string getFilenameKnownFacets(int argc, char** argv)
    {
       for ( int i = 1; i < argc; ++i )
@@ -276,19 +285,19 @@ namespace
             {
                throw std::invalid_argument("Expected argument to option \"--known-facets\".");
             }
-            return argv[i + 1];
+            return checkedFilename(argv[i + 1]);
          }
          else if ( std::strncmp(argv[i], "-k=", 3) == 0 )
          {
-            return argv[i] + 3;
+            return checkedFilename(argv[i] + 3);
          }
          else if ( std::strncmp(argv[i], "--known-data=", 13) == 0 )
          {
-            return argv[i] + 13;
+            return checkedFilename(argv[i] + 13);
          }
          else if ( std::strncmp(argv[i], "--known-facets=", 15) == 0 )
          {
-            return argv[i] + 15;
+            return checkedFilename(argv[i] + 15);
          }
          else if ( std::strncmp(argv[i], "--known-vertices=", 17) == 0 )
          {
@@ -312,15 +321,15 @@ namespace
             {
                throw std::invalid_argument("Expected argument to option \"--known-vertices\".");
             }
-            return argv[i + 1];
+            return checkedFilename(argv[i + 1]);
          }
          else if ( std::strncmp(argv[i], "-k=", 3) == 0 )
          {
-            return argv[i] + 3;
+            return checkedFilename(argv[i] + 3);
          }
          else if ( std::strncmp(argv[i], "--known-data=", 13) == 0 )
          {
-            return argv[i] + 13;
+            return checkedFilename(argv[i] + 13);
          }
          else if ( std::strncmp(argv[i], "--known-facets=", 15) == 0 )
          {
@@ -328,7 +337,7 @@ namespace
          }
          else if ( std::strncmp(argv[i], "--known-vertices=", 17) == 0 )
          {
-            return argv[i] + 17;
+            return checkedFilename(argv[i] + 17);
          }
          else if ( std::strncmp(argv[i], "-k", 2) == 0 || std::strncmp(argv[i], "--k", 3) == 0 )
          {
-- 
2.43.0


From e5040440d6b4b1c0f65f26ce974c5f73eef4d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 23/35] fix: names in the identifier of a row do not make it a
 named constraint

---
 src/input_constraint.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/input_constraint.cpp b/src/input_constraint.cpp
index 89d4190..e12d092 100644
--- a/src/input_constraint.cpp
+++ b/src/input_constraint.cpp
@@ -8,6 +8,7 @@
 #include "input_constraint.h"
 #undef COMPILE_TEMPLATE_INPUT_CONSTRAINT
 
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
@@ -92,10 +93,22 @@ namespace
       }
    }
 
+   /// Returns true if any of the names occurs in the next row. What is written in the identifier of the row is irrelevant.
+   bool containsNames(std::istream& stream, const Names& names)
+   {
+      input::skipWhitespace(stream);
+      std::istringstream row(peekLine(stream));
+      if ( input::isIdentifier(row) )
+      {
+         input::identifier(row);
+      }
+      return input::containsNames(names, row);
+   }
+
    template <ConstraintType type>
    Row<int> potentiallyNamedConstraint(std::istream& stream, const Names& names)
    {
-      if ( names.empty() || !input::containsNames(names, stream) )
+      if ( names.empty() || !containsNames(stream, names) )
       {
          return input::implementation::constraint<type>(stream);
       }
-- 
2.43.0


From c7cd69b68061e7124dcc9e4cd666c761e796bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 24/35] fix: a sign may be separated from the right hand side
 as well

---
 src/input_constraint_named_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 510969f..9e591f2 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -114,7 +114,7 @@ namespace
             }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
-            if ( coefficient < 0 )
+            if ( (index < names.size() && coefficient < 0) || (index == names.size() && coefficient > 0) ) // the rhs is stored negated.
             {
                errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
             }
-- 
2.43.0


From 5e93d1a7b19b323ef52a6d67733a5fa673a1b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 25/35] fix: reject coefficients of constraints that cannot be
 negated

---
 src/input_constraint_named_variables.cpp   | 5 +++++
 src/input_constraint_unnamed_variables.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 9e591f2..cacd4ac 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -9,6 +9,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -49,6 +50,10 @@ namespace
       assert( !token.empty() );
       const auto end_of_factor = token.find_first_not_of("+-0123456789");
       const auto factor = toInt(token.substr(0, end_of_factor));
+      if ( factor == std::numeric_limits<int>::min() ) // cannot be negated
+      {
+         errorWithLineInformation<std::invalid_argument>("Coefficient is too large", id);
+      }
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
          if ( token.find_first_of("0123456789") == std::string::npos )
diff --git a/src/input_constraint_unnamed_variables.cpp b/src/input_constraint_unnamed_variables.cpp
index 92beebc..93c7478 100644
--- a/src/input_constraint_unnamed_variables.cpp
+++ b/src/input_constraint_unnamed_variables.cpp
@@ -6,6 +6,7 @@
 
 #include "input_constraint_unnamed_variables.h"
 
+#include <limits>
 #include <stdexcept>
 
 #include "input_common.h"
@@ -69,6 +70,10 @@ namespace
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral token in inequality", id);
             }
+            if ( coefficient == std::numeric_limits<int>::min() ) // cannot be negated
+            {
+               errorWithLineInformation<std::invalid_argument>("Coefficient is too large", id);
+            }
             if ( has_rhs )
             {
                errorWithLineInformation<std::invalid_argument>("Only one coefficient allowed on right hand side", id);
-- 
2.43.0


From 619b97bb698bcf68c43f3efcb7d0f04f6d861dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 26/35] fix: reject signs without a term in maps

---
 src/input_map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index 037a883..9484de1 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -104,11 +104,16 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
             // not referring to a name => index == number of names
+            if ( token.substr(start, position - start).find_first_of("0123456789") == std::string::npos )
+            {
+               throw std::invalid_argument("Excessive \"+\" or \"-\" in \"" + token + "\" of a map.");
+            }
             result.push_back(std::make_pair(names.size(), factor));
          }
          else
-- 
2.43.0


From 048258771186f7595f0a717059e2143c992e9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 27/35] fix: the dimension is the natural number on the line of
 its keyword

---
 src/input_dimension.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/input_dimension.cpp b/src/input_dimension.cpp
index ac0773c..e856136 100644
--- a/src/input_dimension.cpp
+++ b/src/input_dimension.cpp
@@ -6,19 +6,22 @@
 
 #include "input_dimension.h"
 
+#include <sstream>
 #include <stdexcept>
+#include <string>
+
+#include "input_common.h"
 
 using namespace panda;
 
 std::size_t panda::input::implementation::dimension(std::istream& stream)
 {
-   while ( stream && stream.peek() != '=' )
-   {
-      stream.get();
-   }
-   stream.get(); // consume '='
-   std::size_t dim;
-   if ( !(stream >> dim) )
+   std::string line;
+   std::getline(stream, line);
+   const auto position = line.find('=');
+   const auto value = (position != std::string::npos) ? trimWhitespace(line.substr(position + 1)) : "";
+   std::size_t dim{0};
+   if ( value.empty() || value.find_first_not_of("0123456789") != std::string::npos || !(std::istringstream(value) >> dim) )
    {
       throw std::invalid_argument("Argument to field \"dimension\" is invalid.");
    }
-- 
2.43.0


From 82e90468ddf1e44cf1d20fe4040d66656548e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 28/35] fix: reject rows that consist of an identifier only

---
 src/input_constraint_unnamed_variables.cpp | 4 ++++
 src/input_vertex.cpp                       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/input_constraint_unnamed_variables.cpp b/src/input_constraint_unnamed_variables.cpp
index 93c7478..935ed6f 100644
--- a/src/input_constraint_unnamed_variables.cpp
+++ b/src/input_constraint_unnamed_variables.cpp
@@ -92,6 +92,10 @@ namespace
       }
       if ( ieq.empty() )
       {
+         if ( !id.empty() )
+         {
+            errorWithLineInformation<std::invalid_argument>("Row without coefficients", id);
+         }
          return Row<int>{};
       }
       if ( relation != RelationOperator::Undecided ) // invert the last entry if input was in PANDA format
diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index f1a1b21..5dbd1dc 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -174,6 +174,10 @@ namespace
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
       {
+         if ( !id.empty() )
+         {
+            errorWithLineInformation<std::invalid_argument>("Row without coordinates", id);
+         }
          return {};
       }
       Wide lcm_value{1};
-- 
2.43.0


From d0c989e5c839b2ce6135d61caa0af8a14fd92d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 29/35] fix: refuse repeated sections instead of dropping the
 data of the first one

---
 src/input.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index d6315c8..f91e961 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <fstream>
 #include <limits>
+#include <set>
 #include <stdexcept>
 #include <string>
 
@@ -96,6 +97,18 @@ namespace
    }
 }
 
+namespace
+{
+   /// Every section may occur at most once, as its data would replace what has been read before.
+   void checkFirstOccurrence(std::set<std::string>& sections, const std::string& section)
+   {
+      if ( !sections.insert(section).second )
+      {
+         throw std::invalid_argument("Invalid input data: There is more than one section of " + section + ".");
+      }
+   }
+}
+
 template <>
 std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices<int>(int argc, char** argv)
 {
@@ -116,37 +129,45 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    {
       throw std::invalid_argument("An inner description must be given in PANDA format.");
    }
+   std::set<std::string> sections;
    for ( std::string token; file && advanceToNextKeyword(file, token); )
    {
       if ( implementation::isKeywordDimension(token) )
       {
+         checkFirstOccurrence(sections, "dimension");
          dimension = implementation::dimension(file);
       }
       else if ( implementation::isKeywordNames(token) )
       {
+         checkFirstOccurrence(sections, "names");
          names = implementation::names(file);
       }
       else if ( implementation::isKeywordMaps(token) )
       {
+         checkFirstOccurrence(sections, "maps");
          maps = implementation::maps(file, names);
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
+         checkFirstOccurrence(sections, "vertices");
          conv = input::implementation::verticesConvex(file);
          conv_reduced = false;
       }
       else if ( implementation::isKeywordReducedConvexHull(token) )
       {
+         checkFirstOccurrence(sections, "vertices");
          conv = readVerticesReducedConvex(argc, argv, file, maps);
          conv_reduced = true;
       }
       else if ( implementation::isKeywordConicalHull(token) )
       {
+         checkFirstOccurrence(sections, "rays");
          cone = input::implementation::verticesConical(file);
          cone_reduced = false;
       }
       else if ( implementation::isKeywordReducedConicalHull(token) )
       {
+         checkFirstOccurrence(sections, "rays");
          cone = readVerticesReducedConical(argc, argv, file, maps);
          cone_reduced = true;
       }
@@ -194,31 +215,38 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    {
       throw std::invalid_argument("An outer description must be given in PANDA format.");
    }
+   std::set<std::string> sections;
    for ( std::string token; file && advanceToNextKeyword(file, token); )
    {
       if ( implementation::isKeywordDimension(token) )
       {
+         checkFirstOccurrence(sections, "dimension");
          dimension = implementation::dimension(file);
       }
       else if ( implementation::isKeywordNames(token) )
       {
+         checkFirstOccurrence(sections, "names");
          names = implementation::names(file);
       }
       else if ( implementation::isKeywordMaps(token) )
       {
+         checkFirstOccurrence(sections, "maps");
          maps = implementation::maps(file, names);
       }
       else if ( implementation::isKeywordEquations(token) )
       {
+         checkFirstOccurrence(sections, "equations");
          equations = implementation::constraints<ConstraintType::Equation>(file, names);
       }
       else if ( implementation::isKeywordInequalities(token) )
       {
+         checkFirstOccurrence(sections, "inequalities");
          inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
          reduced = false;
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
+         checkFirstOccurrence(sections, "inequalities");
          inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
          reduced = true;
       }
-- 
2.43.0


From d927634260046a12b5ae7c3b038814d87a8d44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 30/35] fix: reject variables on the right hand side of a
 constraint

---
 src/input_constraint_named_variables.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index cacd4ac..f6b3081 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -137,12 +137,13 @@ namespace
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
          }
          ieq[index] = coefficient;
+         if ( relation != RelationOperator::Undecided && index + 1 < ieq.size() )
+         {
+            errorWithLineInformation<std::invalid_argument>("No variables are allowed on the right hand side", id);
+         }
          if ( has_rhs )
          {
-            const std::string message = ( index + 1 < ieq.size() )
-                                        ? "No variables are allowed on the right hand side"
-                                        : "Only one integer is allowed on the right hand side";
-            errorWithLineInformation<std::invalid_argument>(message, id);
+            errorWithLineInformation<std::invalid_argument>("Only one integer is allowed on the right hand side", id);
          }
          if ( index + 1 == ieq.size() )
          {
-- 
2.43.0


From 153089ae17435c61c518aa3ceffede2559a5a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:01 +0000
Subject: [PATCH 31/35] fix: moved-from delayed actions do not act again

---
 src/delayed_action.h   |  4 ++--
 src/delayed_action.tpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/delayed_action.h b/src/delayed_action.h
index d73c43a..3e3e172 100644
--- a/src/delayed_action.h
+++ b/src/delayed_action.h
@@ -42,8 +42,8 @@ namespace panda
          ~DelayedAction();
          /// Deleted copy constructor.
          DelayedAction(const DelayedAction&) = delete;
-         /// Default move constructor.
-         DelayedAction(DelayedAction&&) = default;
+         /// Move constructor. The action passes to the new object, the old one doesn't execute it anymore.
+         DelayedAction(DelayedAction&&);
          /// If the delayed action is dismissed, the action will not be performed
          /// no matter how the scope is exited.
          void dismiss() noexcept;
diff --git a/src/delayed_action.tpp b/src/delayed_action.tpp
index e98d551..c835840 100644
--- a/src/delayed_action.tpp
+++ b/src/delayed_action.tpp
@@ -5,6 +5,7 @@
 //-------------------------------------------------------------------------------//
 
 #include <thread>
+#include <utility>
 
 template <typename Runnable>
 panda::DelayedAction<Runnable> panda::makeDelayedAction(Runnable&& runnable, std::chrono::seconds time)
@@ -38,6 +39,17 @@ panda::DelayedAction<Runnable>::DelayedAction(Runnable&& runnable_, std::chrono:
 {
 }
 
+template <typename Runnable>
+panda::DelayedAction<Runnable>::DelayedAction(DelayedAction&& other)
+:
+   dismissed(other.dismissed),
+   runnable(std::forward<Runnable>(other.runnable)),
+   start(other.start),
+   minimum_waiting_time(other.minimum_waiting_time)
+{
+   other.dismissed = true;
+}
+
 template <typename Runnable>
 panda::DelayedAction<Runnable>::~DelayedAction()
 {
-- 
2.43.0


From a6658cad4a52b3a81b9e365b201a68f937774eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 32/35] fix: keep sizes of a matrix until they are sent, send
 matrices without rows

The sizes were local to the block that posts the sends, but the library may
read them until the requests are completed. The rows of an empty matrix (a
facet without ridges) were accessed.
---
 src/communication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5722b37..91adfcd 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -83,12 +83,13 @@ Row<Integer> panda::Communication::fromMaster() const
 template <>
 void panda::Communication::toMaster(const Matrix<int>& matrix) const
 {
+   // the data to be sent must be kept until the requests are completed.
+   const auto size = matrix.size();
+   const auto row_size = matrix.empty() ? std::size_t{0} : matrix.back().size();
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
-      const auto size = matrix.size();
-      const auto row_size = matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0


From 49102fcc6075af53b776d743dc3be4f7146ec501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 33/35] fix: include cstdint where the integer types are
 selected

Without it, integers of fixed size were refused whenever no other header
included it (e.g. with g++ 13).
---
 src/integer_type_detection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integer_type_detection.cpp b/src/integer_type_detection.cpp
index 2537363..24b2bca 100644
--- a/src/integer_type_detection.cpp
+++ b/src/integer_type_detection.cpp
@@ -7,6 +7,7 @@
 #include "integer_type_detection.h"
 
 #include <cassert>
+#include <cstdint>
 #include <cstring>
 #include <stdexcept>
 #include <string>
-- 
2.43.0


From 136e28e641b8a5748f09d65870833007d03df762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:31 +0000
Subject: [PATCH 34/35] fix: transmit rows of 64 bit integers completely

They were truncated to int on their way to another process.
---
 src/communication.cpp | 79 +++++++++++++++++++++++++++++++++++--------
 src/communication.h   | 25 ++++++++++++++
 2 files changed, 89 insertions(+), 15 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 91adfcd..b6fb2b3 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -12,6 +12,7 @@
 
 #include <chrono>
 #include <cstddef>
+#include <cstdint>
 #include <stdexcept>
 #include <thread>
 #include <vector>
@@ -80,8 +81,8 @@ Row<Integer> panda::Communication::fromMaster() const
 /// non-blocking (Isend). But the send_mutex is only unlocked after the
 /// Isend has actually transferred the data.
 
-template <>
-void panda::Communication::toMaster(const Matrix<int>& matrix) const
+template <typename Integer>
+void panda::Communication::transmitToMaster(const Matrix<Integer>& matrix) const
 {
    // the data to be sent must be kept until the requests are completed.
    const auto size = matrix.size();
@@ -94,7 +95,7 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
       {
-         const auto bytes = static_cast<int>(row_size * sizeof(int));
+         const auto bytes = static_cast<int>(row_size * sizeof(Integer));
          requests.emplace_back(send(&row.front(), bytes, Master, tag::matrix));
       }
    }
@@ -105,8 +106,8 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
    }
 }
 
-template <>
-Matrix<int> panda::Communication::fromSlave(const int id) const
+template <typename Integer>
+Matrix<Integer> panda::Communication::receiveFromSlave(const int id) const
 {
    for ( ; true; pause() ) // look for matching transmission, but pause to let others acquire lock.
    {
@@ -117,11 +118,11 @@ Matrix<int> panda::Communication::fromSlave(const int id) const
          std::size_t row_size;
          receive(&size, sizeof(decltype(size)), id, tag::matrix);
          receive(&row_size, sizeof(decltype(row_size)), id, tag::matrix);
-         Matrix<int> matrix(size);
+         Matrix<Integer> matrix(size);
          for ( auto& row : matrix )
          {
             row.resize(row_size);
-            const auto bytes = static_cast<int>(row_size * sizeof(int));
+            const auto bytes = static_cast<int>(row_size * sizeof(Integer));
             receive(&row.front(), bytes, id, tag::matrix);
          }
          return matrix;
@@ -129,21 +130,21 @@ Matrix<int> panda::Communication::fromSlave(const int id) const
    }
 }
 
-template <>
-void panda::Communication::toSlave<int>(const Row<int>& row, const int id) const
+template <typename Integer>
+void panda::Communication::transmitToSlave(const Row<Integer>& row, const int id) const
 {
    MPI_Request request;
    {
       std::lock_guard<std::mutex> lock(mutex);
       const auto begin = row.empty() ? nullptr : &row.front();
-      const auto bytes = static_cast<int>(row.size() * sizeof(int));
+      const auto bytes = static_cast<int>(row.size() * sizeof(Integer));
       request = send(begin, bytes, id, tag::row);
    }
    waitForCompletion(mutex, request);
 }
 
-template <>
-Row<int> panda::Communication::fromMaster<int>() const
+template <typename Integer>
+Row<Integer> panda::Communication::receiveFromMaster() const
 {
    for ( ; true; pause() ) // look for matching transmission, but pause to let others acquire lock.
    {
@@ -154,16 +155,64 @@ Row<int> panda::Communication::fromMaster<int>() const
          MPI_Probe(Master, tag::row, MPI_COMM_WORLD, &status);
          int count;
          MPI_Get_count(&status, MPI_BYTE, &count);
-         const auto row_size = static_cast<std::size_t>(count) / sizeof(int);
-         Row<int> row(row_size);
+         const auto row_size = static_cast<std::size_t>(count) / sizeof(Integer);
+         Row<Integer> row(row_size);
          const auto begin = row.empty() ? nullptr : &row.front();
-         const auto bytes = static_cast<int>(row.size() * sizeof(int));
+         const auto bytes = static_cast<int>(row.size() * sizeof(Integer));
          receive(begin, bytes, Master, tag::row);
          return row;
       }
    }
 }
 
+template <>
+void panda::Communication::toMaster<int>(const Matrix<int>& matrix) const
+{
+   transmitToMaster(matrix);
+}
+
+template <>
+Matrix<int> panda::Communication::fromSlave<int>(const int id) const
+{
+   return receiveFromSlave<int>(id);
+}
+
+template <>
+void panda::Communication::toSlave<int>(const Row<int>& row, const int id) const
+{
+   transmitToSlave(row, id);
+}
+
+template <>
+Row<int> panda::Communication::fromMaster<int>() const
+{
+   return receiveFromMaster<int>();
+}
+
+template <>
+void panda::Communication::toMaster<std::int64_t>(const Matrix<std::int64_t>& matrix) const
+{
+   transmitToMaster(matrix);
+}
+
+template <>
+Matrix<std::int64_t> panda::Communication::fromSlave<std::int64_t>(const int id) const
+{
+   return receiveFromSlave<std::int64_t>(id);
+}
+
+template <>
+void panda::Communication::toSlave<std::int64_t>(const Row<std::int64_t>& row, const int id) const
+{
+   transmitToSlave(row, id);
+}
+
+template <>
+Row<std::int64_t> panda::Communication::fromMaster<std::int64_t>() const
+{
+   return receiveFromMaster<std::int64_t>();
+}
+
 namespace
 {
    template <typename Pointer>
diff --git a/src/communication.h b/src/communication.h
index da6addb..9555b60 100644
--- a/src/communication.h
+++ b/src/communication.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <cstdint>
 #include <mutex>
 
 #include "matrix.h"
@@ -35,8 +36,22 @@ namespace panda
          #pragma GCC diagnostic pop
       private:
          mutable std::mutex mutex;
+      private:
+         /// Sending facets back to the master, without conversion.
+         template <typename Integer>
+         void transmitToMaster(const Matrix<Integer>&) const;
+         /// Receiving facets from slave, without conversion.
+         template <typename Integer>
+         Matrix<Integer> receiveFromSlave(const int) const;
+         /// Sending a facet to slave, without conversion.
+         template <typename Integer>
+         void transmitToSlave(const Row<Integer>&, const int) const;
+         /// Receiving a facet from master, without conversion.
+         template <typename Integer>
+         Row<Integer> receiveFromMaster() const;
    };
 
+   // 64 bit integers are transmitted as they are, all other integers as int.
    template <>
    void Communication::toMaster<int>(const Matrix<int>&) const;
    template <>
@@ -46,6 +61,16 @@ namespace panda
    void Communication::toSlave<int>(const Row<int>&, const int) const;
    template <>
    Row<int> Communication::fromMaster<int>() const;
+
+   template <>
+   void Communication::toMaster<std::int64_t>(const Matrix<std::int64_t>&) const;
+   template <>
+   Matrix<std::int64_t> Communication::fromSlave<std::int64_t>(const int) const;
+
+   template <>
+   void Communication::toSlave<std::int64_t>(const Row<std::int64_t>&, const int) const;
+   template <>
+   Row<std::int64_t> Communication::fromMaster<std::int64_t>() const;
 }
 
 #include "communication.eti"
-- 
2.43.0


From 955370219c308307775f548a44e646d08c381c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 35/35] fix: end all waiting threads if the initialization of
 the adjacency decomposition fails

The threads that request jobs for other nodes waited forever, and so did all
nodes, instead of ending with the message.
---
 ...adjacency_decomposition_implementation.cpp | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..37a9dce 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <exception>
 #include <future>
 #include <iostream>
 #include <list>
@@ -23,6 +24,7 @@
 #include "concurrency.h"
 #include "joining_thread.h"
 #include "message_passing_interface_session.h"
+#include "scope_guard.h"
 
 using namespace panda;
 
@@ -45,6 +47,14 @@ namespace
 
    template <typename Integer, typename TagType>
    std::future<void> initializePool(JobManagerProxy<Integer, TagType>&, const Matrix<Integer>&, const Maps&, const Matrix<Integer>&, const Equations<Integer>&);
+
+   /// Ends all threads (of all nodes) that wait for jobs, because there won't be any.
+   template <typename Integer, typename TagType>
+   void abandon(const JobManager<Integer, TagType>&, const int) noexcept;
+
+   /// Accepts that there won't be any jobs for the threads of this node.
+   template <typename Integer, typename TagType>
+   void abandon(const JobManagerProxy<Integer, TagType>&, const int) noexcept;
 }
 
 template <template <typename, typename> class JobManagerType, typename Integer, typename TagType>
@@ -56,11 +66,13 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
    const auto& names = std::get<1>(data);
    const auto& known_output = std::get<3>(data);
    JobManagerType<Integer, TagType> job_manager(names, node_count, thread_count);
+   auto guard = makeScopeGuard([&]() { abandon(job_manager, thread_count); }); // in case that the initialization fails.
    const auto reduced_data = reduce(job_manager, data);
    const auto& equations = std::get<0>(reduced_data);
    const auto& maps = std::get<1>(reduced_data);
    std::list<JoiningThread> threads;
    auto future = initializePool(job_manager, input, maps, known_output, equations);
+   guard.dismiss();
    for ( int i = 0; i < thread_count; ++i )
    {
       threads.emplace_front([&]()
@@ -179,5 +191,24 @@ namespace
       auto future = std::async(std::launch::async, [](){});
       return future;
    }
+
+   template <typename Integer, typename TagType>
+   void abandon(const JobManager<Integer, TagType>& manager, const int) noexcept
+   {
+      manager.put(Matrix<Integer>{});
+      manager.get();
+   }
+
+   template <typename Integer, typename TagType>
+   void abandon(const JobManagerProxy<Integer, TagType>& manager, const int thread_count) noexcept
+   {
+      for ( int i = 0; i < thread_count; ++i )
+      {
+         if ( !manager.get().empty() )
+         {
+            std::terminate(); // only this node failed, its share of the work would be missing.
+         }
+      }
+   }
 }
 
-- 
2.43.0

