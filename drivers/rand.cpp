#include "validate.h"
// instantiations of the random functions the analysis looks at
namespace drv {
	using I = Integer;
	using V = std::vector<I>;
	using SV = std::string_view;
	// numbers
	bool bit0() {return Random::bit();}
	I int0() {return Random::integer();}
	I int1(I u) {return Random::integer(u);}
	I int2(I l, I u) {return Random::integer(l, u);}
	Real real0() {return Random::real();}
	Real real1(Real u) {return Random::real(u);}
	Real real2(Real l, Real u) {return Random::real(l, u);}
	I discr1() {return Random::discrete<3>();}
	I discr3() {return Random::discrete<2, 0, 3>();}
	I discr4() {return Random::discrete<0, 1, 4, 0>();}
	Real normal2(Real m, Real s) {return Random::normal(m, s);}
	Real normal4(Real l, Real u, Real m, Real s) {return Random::normal(l, u, m, s);}
	Real exp1(Real lam) {return Random::exponential(lam);}
	Real exp3(Real l, Real u, Real lam) {return Random::exponential(l, u, lam);}
	I geo1(Real p) {return Random::geometric(p);}
	I geo3(I l, I u, Real p) {return Random::geometric(l, u, p);}
	I bin2(I n, Real p) {return Random::binomial(n, p);}
	I bin4(I l, I u, I n, Real p) {return Random::binomial(l, u, n, p);}
	I max2(I u, I n) {return Random::maximum(u, n);}
	I max3(I l, I u, I n) {return Random::maximum(l, u, n);}
	I min2(I u, I n) {return Random::minimum(u, n);}
	I min3(I l, I u, I n) {return Random::minimum(l, u, n);}
	I minmax2(I u, I n) {return Random::minmax(u, n);}
	I minmax3(I l, I u, I n) {return Random::minmax(l, u, n);}
	I prime1(I u) {return Random::prime(u);}
	I prime2(I l, I u) {return Random::prime(l, u);}
	void seed1(UInteger s) {Random::seed(s);}
	// utility
	I selIt(const V& v) {return Random::select(v.begin(), v.end());}
	I selC(const V& v) {return Random::select(v);}
	void selRef(V& v, I x) {Random::select(v) = x;}
	I selArr(I a, I b, I c) {
		const I arr[3] = {a, b, c};
		return Random::select(arr);
	}
	I selList(I a, I b, I c) {return Random::select({a, b, c});}
	I selPair(const std::pair<I, I>& p) {return Random::select(p);}
	I selComplex(const std::complex<I>& p) {return Random::select(p);}
	void shufIt(V& v) {Random::shuffle(v.begin(), v.end());}
	void shufC(V& v) {Random::shuffle(v);}
	void shufPair(std::pair<I, I>& p) {Random::shuffle(p);}
	void shufComplex(std::complex<I>& p) {Random::shuffle(p);}
	I rotIt(V& v) {return Random::rotate(v.begin(), v.end());}
	I rotC(V& v) {return Random::rotate(v);}
	// sequences
	V distinct2(I c, I u) {return Random::distinct(c, u);}
	V distinct3(I c, I l, I u) {return Random::distinct(c, l, u);}
	V perm1(I c) {return Random::perm(c);}
	V perm2(I c, I o) {return Random::perm(c, o);}
	V permC(const V& c, I o) {return Random::perm(c, o);}
	V permF(I c, const V& f, I o) {return Random::perm(c, f, o);}
	V mult2(I c, I u) {return Random::multiple(c, u);}
	V mult3(I c, I l, I u) {return Random::multiple(c, l, u);}
	V inc2(I c, I u) {return Random::increasing(c, u);}
	V inc3(I c, I l, I u) {return Random::increasing(c, l, u);}
	V dec2(I c, I u) {return Random::decreasing(c, u);}
	V dec3(I c, I l, I u) {return Random::decreasing(c, l, u);}
	V ndec2(I c, I u) {return Random::nonDecreasing(c, u);}
	V ndec3(I c, I l, I u) {return Random::nonDecreasing(c, l, u);}
	V ninc2(I c, I u) {return Random::nonIncreasing(c, u);}
	V ninc3(I c, I l, I u) {return Random::nonIncreasing(c, l, u);}
	V part2(I n, I k) {return Random::partition(n, k);}
	V part3(I n, I k, I m) {return Random::partition(n, k, m);}
	std::string str1(I n) {return Random::string(n);}
	std::string str2(I n, SV a) {return Random::string(n, a);}
	std::string brack1(I n) {return Random::bracketSequence(n);}
	std::string brack3(I n, char a, char b) {return Random::bracketSequence(n, a, b);}
	using Pt = std::pair<I, I>;
	std::vector<Pt> convex2(I n, I d) {return Random::convex(n, d);}
	std::vector<Pt> noncol2(I n, I d) {return Random::nonCollinearPoints(n, d);}
}
