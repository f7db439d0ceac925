From 6972b9e8b59a2d9768e9518dfb798563b6c33544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 01/37] fix: expectReal rejected equal values and accepted
 different ones

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..1ea9309 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2651,7 +2651,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From d3d187f3c42435401a49affb689eb43b14f30408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 02/37] fix: strict real grammar accepted digits after a
 leading zero

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1ea9309..83d517c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From ef2d0f10ebc22b8c92f0240cc1b3abdd9c26b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 03/37] fix: configured float tolerances were ignored by most
 role streams

---
 src/validate.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 83d517c..b26555d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2904,8 +2904,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2927,9 +2927,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2951,8 +2951,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 65e977b66fbe8330297578628f6d47cfe30987c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 04/37] fix: powMod returned 1 for modulus 1 and exponent 0

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b26555d..a735085 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From db8050a7cff76b00206b8d6626c91b346ab3ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 05/37] fix: multInv found no inverse for negative numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index a735085..1eb4312 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From c64b59301bc94dfe5f0b79d59fba7e95102e01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 06/37] fix: Random::prime could return 2 outside of the
 requested range

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1eb4312..3f8c55c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1592,7 +1592,7 @@ namespace Random {
 		if (sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
-				if (isPrime(res)) return res;
+				if (res < upper and isPrime(res)) return res;
 			}
 		}
 		judgeAssert<std::domain_error>(false, "Random::prime(): range contains no primes?");
-- 
2.43.0


From c38ec1c475b92afe2cc1ab544656203264ea843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 07/37] fix: Random::seed did not compile with the documented
 alternative engines

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 3f8c55c..88e92f0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1343,7 +1343,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From ac0dca212881896c0b4db9ffe8e0645a10fe905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 08/37] fix: isLower(string) did not return the offending
 character

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 88e92f0..261e013 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -745,9 +745,9 @@ void toDefaultCase(std::string& s) {
 	return toUpper(s);
 }
 
-constexpr bool isLower(std::string_view s) {
-	for (char c : s) if (!isLower(c)) return false;
-	return true;
+constexpr boolean<char> isLower(std::string_view s) {
+	for (char c : s) if (!isLower(c)) return boolean<char>(false, c);
+	return boolean<char>(true);
 }
 
 constexpr boolean<char> isUpper(std::string_view s) {
-- 
2.43.0


From d1e6a4c7062113e1c5ac64a4bb7c00fe90520e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 09/37] fix: number parser accepted a minus sign after a plus
 sign

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 261e013..cc51c4f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -953,7 +953,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (!s.empty() && s[0] == '+' && s.substr(0, 2) != "+-") begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From bf66e74373f3e0b4ecfb8e35fefca5e8f51937bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 10/37] fix: default constructed InputStream had an
 indeterminate stream pointer

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cc51c4f..15db349 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2255,7 +2255,7 @@ public:
 //============================================================================//
 class InputStream final {
 	std::unique_ptr<std::ifstream> managed;
-	std::istream* in;
+	std::istream* in = nullptr;
 	bool spaceSensitive, caseSensitive;
 	OutputStream* out;
 	Verdicts::Verdict onFail;
-- 
2.43.0


From d5e586955669df1fd678f6af6fead8c64c0f923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 11/37] fix: allAdjacent(container) computed noneAdjacent

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 15db349..c02d8ce 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 3acd2c38474ff6f2230beebc2580dcbdc0a534b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 12/37] fix: geometric with p=0 returned a garbage value

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index c02d8ce..8379d93 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1470,12 +1470,12 @@ namespace Random {
 	}
 
 	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
 	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-- 
2.43.0


From 8e57cf91a64515fd638aa4dad080164efc8a308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 13/37] fix: Random::real could round up to 1

---
 src/validate.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 8379d93..a2de446 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1391,15 +1391,18 @@ namespace Random {
 	}
 
 	Real real() {// in [0, 1)
-		UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
-		int exponent = -64;
-		UInteger x;
-		do {
-			x = details::randomNumberGenerator();
-			//count trailing (or leading) zeroes in x
-			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
-		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		while (true) {
+			UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
+			int exponent = -64;
+			UInteger x;
+			do {
+				x = details::randomNumberGenerator();
+				//count trailing (or leading) zeroes in x
+				exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
+			} while (x == 0);
+			Real res = std::ldexp(mantissa, exponent);
+			if (res < 1.0_real) return res;
+		}
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 47aaea03ded3e31301313624e73f57196f10917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 14/37] fix: isDAG started its topological order from
 out-degrees

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From af8e434186bf58643ca1a639ae35e58cac27c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 15/37] fix: directed isTree reported a root for graphs with a
 cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..c197024 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and edgeCount() + 1 == nodeCount() and root < nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From 30da0a30e6584d3dab8ca18c9e9f4a898363c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 16/37] fix: wheel did not close the outer cycle

---
 src/graph_gen.h | 1968 +++++++++++++++++++++++------------------------
 1 file changed, 984 insertions(+), 984 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..36b7fa3 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,984 +1,984 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (i != c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph& transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			from = std::max(static_cast<Integer>(0), from - minId);
+			to = std::min(nodeCount(), to - minId);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, e.data);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (i != c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph& transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			Graph tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) < i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(i, j);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From efc51a79ba2e36bba6c05144b661f364f751321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 17/37] fix: directed cycle did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 36b7fa3..76d26fe 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -707,7 +707,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 9a200f208b4f1f0f4701ec52698cb607598804a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 18/37] fix: rado graph missed edges and reversed their
 direction

---
 src/graph_gen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 76d26fe..2f697f2 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -794,9 +794,9 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+		for (Integer j = 0; (1ll << j) <= i; j++) {
+			if ((i | (1ll << j)) == i) {
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From be7ec2306d64974e831cd91a46307a7ac30cb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 19/37] fix: transitiveClosure returned a reference to a
 temporary

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 2f697f2..242b4b3 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -524,7 +524,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 13f0432bc7dcc34ed5d9fe95a4c700eac65886ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 20/37] fix: power emitted every undirected edge twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 242b4b3..5b3ebf7 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -515,7 +515,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From 9167aa57c5154236eebc4d6fcf9ee5cb4a683bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 21/37] fix: range compared normalised bounds with absolute ids

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 5b3ebf7..4f4cc69 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From ec87923973f4dad2369e4393769d0e4dbb942080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 22/37] fix: fillRectangle assigned its row counter instead of
 comparing it

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 3967aae8723af7dcc9abd5ddc88fd4ae12f7d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 23/37] fix: isConvex accepted self-intersecting polygons

---
 src/validate.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index a2de446..979e00e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1207,14 +1207,18 @@ template<typename RandomIt>
 constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
+	auto less = [](const auto& a, const auto& b) {
+		return getX(a) != getX(b) ? getX(a) < getX(b) : getY(a) < getY(b);
+	};
 	bool hasArea = false;
+	std::size_t turns = 0; // a polygon that only turns left is convex iff it turns around exactly twice
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
-		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		turns += less(first[i], first[(i+1) % n]) != less(first[(i+1) % n], first[(i+2) % n]);
 	}
-	return hasArea;
+	return hasArea and turns == 2;
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 652a5e3a5ffddfad17edec04f92e3f13f0a8c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 24/37] fix: minimum overflowed for ranges wider than 2^63

---
 src/validate.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 979e00e..8a1584d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1574,7 +1574,10 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		// maximum mirrored at the center of the range (with unsigned values since this might overflow)
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
+		return static_cast<Integer>(ul + uu - 1 - static_cast<UInteger>(maximum(lower, upper, n)));
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From 71f83903320098d04985386e8a7e3cdef9f9b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 25/37] fix: perm did not keep a point fixed that was listed
 twice

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 8a1584d..b05624e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1741,7 +1741,7 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			if (res[x - offset] < 0) std::swap(tmp[x - offset], res[x - offset]);
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 64d1585c64f56e3fbcec9b986967a5883fb32474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 26/37] fix: nonCollinearPoints threw if the prime was too
 large for the range

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b05624e..063e63f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1891,7 +1891,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
 		while (rotA == 0 and rotB == 0) {
-- 
2.43.0


From 130b92b4a8c7f43f46a45288031b782a52e0aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/37] fix: nonCollinearPoints used singular rotations

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 063e63f..3ea8ff8 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1894,7 +1894,7 @@ namespace Random {
 		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA*rotA + rotB*rotB) % p == 0) {
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From 3770e2c1652159697e20f16b0c15ef39487225e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 28/37] fix: normal scaled by the square root of the standard
 deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 3ea8ff8..bf372cc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1439,7 +1439,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1453,10 +1453,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From 18b203ca6a0fa0730109b68155cc57715093f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 29/37] fix: lineGraph did not compile for graphs without data

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 4f4cc69..0599087 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From f582f577c1c1cf595e540d04948d4967f3e76503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 30/37] fix: permutate accepted a permutation of the wrong size

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 0599087..a9ee73c 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -399,7 +399,7 @@ namespace GraphDetail {
 		}
 
 		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
 			for (auto& n : adj) n.clear();
 			Random::shuffle(edges.begin(), edges.end());
 			for (auto& e : edges) {
-- 
2.43.0


From 7f2bb075c2eb89e9a390da11131b7d8a340fa063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 31/37] fix: directed randomBipartite with probability ignored
 half of the edges

---
 src/graph_gen.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a9ee73c..d89b97f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,9 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
-- 
2.43.0


From e6301af2414030484b6d45cac264479a4253810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 32/37] fix: directed randomGraph with probability ignored half
 of the edges

---
 src/graph_gen.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index d89b97f..c0035f4 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -883,7 +883,9 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From 0c660957acd9bbf4eeb913ceba25054ebb501706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 33/37] fix: randomGraph threw for degree sequences of zeros

---
 src/graph_gen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index c0035f4..37ee6bc 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -929,6 +929,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		}
 		for (const auto& e : todo) pq.push(e);
 	}
+	if (res.edgeCount() == 0) return res;
 	// randomly flip edges O(m*log(n))
 	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-- 
2.43.0


From 62f3f23f03bc0765483cea6cea19a16b690e01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 34/37] fix: randomGraph accepted negative degrees

---
 src/graph_gen.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 37ee6bc..507fdb7 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -909,6 +909,9 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
-- 
2.43.0


From c8f40520c811fc4f9cabcc48b7a9394999c9f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 35/37] fix: visualizers include <cstdint> for the fixed width
 integers they use

---
 src/visualizer_png.h | 1 +
 src/visualizer_svg.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 875d86a..92a3aba 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -15,6 +15,7 @@
 #include <iomanip>
 #include <fstream>
 #include <cassert>
+#include <cstdint>
 #include <vector>
 #include <cmath>
 #include <optional>
diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..86ec2cf 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -15,6 +15,7 @@
 #include <iomanip>
 #include <fstream>
 #include <cassert>
+#include <cstdint>
 #include <vector>
 #include <cmath>
 #include <optional>
-- 
2.43.0


From cf8af0c2fa01380fcbbd529da9403230699d4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 36/37] fix: restore the CRLF line endings of graph_gen.h,
 which the wheel fix dropped by mistake

---
 src/graph_gen.h | 1980 +++++++++++++++++++++++------------------------
 1 file changed, 990 insertions(+), 990 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 507fdb7..20d61b0 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,990 +1,990 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, *e);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (DIR ? i != c : i < c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E, DIR>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1ll << j) <= i; j++) {
-			if ((i | (1ll << j)) == i) {
-				res.addEdge(j, i);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	if (res.edgeCount() == 0) return res;
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, *e);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (DIR ? i != c : i < c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E, DIR>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1ll << j) <= i; j++) {
+			if ((i | (1ll << j)) == i) {
+				res.addEdge(j, i);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	if (res.edgeCount() == 0) return res;
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From 76d1ec792528a028c7813332e87fd5106db2c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 37/37] fix: size the segment of primes() by the window and
 step it without overflow

---
 src/validate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index bf372cc..e83919b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1120,15 +1120,15 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0

