#include "validate.h"
// instantiations of the utility functions the analysis looks at
namespace drv {
	using I = Integer;
	using V = std::vector<I>;
	using VC = V::const_iterator;
	// characters and strings
	bool lowerC(char c) {return isLower(c);}
	bool upperC(char c) {return isUpper(c);}
	bool letterC(char c) {return isLetter(c);}
	bool digitC(char c) {return isDigit(c);}
	bool vowelC(char c) {return isVowel(c);}
	bool consonantC(char c) {return isConsonant(c);}
	char toLowerC(char c) {return toLower(c);}
	char toUpperC(char c) {return toUpper(c);}
	char toDefaultC(char c) {return toDefaultCase(c);}
	boolean<char> lowerS(std::string_view c) {return isLower(c);}
	boolean<char> upperS(std::string_view c) {return isUpper(c);}
	boolean<char> letterS(std::string_view c) {return isLetter(c);}
	boolean<char> digitS(std::string_view c) {return isDigit(c);}
	boolean<char> vowelS(std::string_view c) {return isVowel(c);}
	boolean<char> consonantS(std::string_view c) {return isConsonant(c);}
	void toLowerS(std::string& c) {toLower(c);}
	void toUpperS(std::string& c) {toUpper(c);}
	void toDefaultS(std::string& c) {toDefaultCase(c);}
	bool token(std::string_view s) {return details::isToken(s);}
	// alphabets
	std::string_view cLETTER() {return LETTER;}
	std::string_view cUPPER() {return UPPER;}
	std::string_view cLOWER() {return LOWER;}
	std::string_view cVOWEL() {return VOWEL;}
	std::string_view cUPPER_VOWELS() {return UPPER_VOWELS;}
	std::string_view cLOWER_VOWELS() {return LOWER_VOWELS;}
	std::string_view cCONSONANT() {return CONSONANT;}
	std::string_view cUPPER_CONSONANT() {return UPPER_CONSONANT;}
	std::string_view cLOWER_CONSONANT() {return LOWER_CONSONANT;}
	std::string_view cALPHA_NUMERIC() {return ALPHA_NUMERIC;}
	std::string_view cUPPER_ALPHA_NUMERIC() {return UPPER_ALPHA_NUMERIC;}
	std::string_view cLOWER_ALPHA_NUMERIC() {return LOWER_ALPHA_NUMERIC;}
	std::string_view cDIGITS() {return DIGITS;}
	std::string_view cBRACKETS() {return BRACKETS;}
	// tolerance comparison
	bool feq(Real g, Real e, Real a, Real r) {return ValidateBase::floatEqual(g, e, a, r);}
	bool fle(Real g, Real e, Real a, Real r) {return ValidateBase::floatLess(g, e, a, r);}
	bool fge(Real g, Real e, Real a, Real r) {return ValidateBase::floatGreater(g, e, a, r);}
	// sequences
	struct Pred {bool operator()(I a, I b) const;};
	boolean<I> anyAdj(const V& v, Pred p) {return anyAdjacent(v, p);}
	boolean<I> noneAdj(const V& v, Pred p) {return noneAdjacent(v, p);}
	boolean<I> allAdj(const V& v, Pred p) {return allAdjacent(v, p);}
	boolean<I> anyAdjI(const V& v, Pred p) {return anyAdjacent(v.begin(), v.end(), p);}
	boolean<I> noneAdjI(const V& v, Pred p) {return noneAdjacent(v.begin(), v.end(), p);}
	boolean<I> allAdjI(const V& v, Pred p) {return allAdjacent(v.begin(), v.end(), p);}
	boolean<I> inc(const V& v) {return areIncreasing(v);}
	boolean<I> nondec(const V& v) {return areNonDecreasing(v);}
	boolean<I> dec(const V& v) {return areDecreasing(v);}
	boolean<I> noninc(const V& v) {return areNonIncreasing(v);}
	boolean<I> incI(const V& v) {return areIncreasing(v.begin(), v.end());}
	boolean<I> nondecI(const V& v) {return areNonDecreasing(v.begin(), v.end());}
	boolean<I> decI(const V& v) {return areDecreasing(v.begin(), v.end());}
	boolean<I> nonincI(const V& v) {return areNonIncreasing(v.begin(), v.end());}
	boolean<I> distinct(const V& v) {return areDistinct(v);}
	boolean<I> perm(const V& v, I offset) {return isPerm(v, offset);}
	boolean<I> perm0(const V& v) {return isPerm(v);}
	boolean<I> perm2(const V& v, const V& w) {return isPerm(v, w);}
	// arithmetic
	I aMod(I x, I m) {return applyMod(x, m);}
	I mMod(I a, I b, I m) {return mulMod(a, b, m);}
	I pMod(I a, I b, I m) {return powMod(a, b, m);}
	I inv(I a, I m) {return multInv(a, m);}
	bool prime(I n) {return isPrime(n);}
	std::vector<I> primesIn(I a, I b) {return primes(a, b);}
	std::vector<I> primesTo(I b) {return primes(b);}
	UInteger pModU(UInteger a, UInteger b, UInteger m) {return details::powMod(a, b, m);}
	I signI(I x) {return sign<I>(x);}
	Real signR(Real x) {return sign<Real>(x);}
	I distI(I a, I b) {return dist<I>(a, b);}
	std::size_t distU(std::size_t a, std::size_t b) {return dist<std::size_t>(a, b);}
	V rng3(I a, I b, I c) {return range(a, b, c);}
	V rng2(I a, I b) {return range(a, b);}
	V rng1(I a) {return range(a);}
	V thue(I a, I b) {return thueMorse(a, b);}
	V thue1(I b) {return thueMorse(b);}
	// geometry
	using P = std::pair<I, I>;
	using C = std::complex<Real>;
	struct Q {I x, y, z;};
	I dotP(const P& a, const P& b) {return dot(a, b);}
	I crossP(const P& a, const P& b) {return cross(a, b);}
	I cross3P(const P& p, const P& a, const P& b) {return cross(p, a, b);}
	I dotQ(const Q& a, const Q& b) {return dot(a, b);}
	I crossQ(const Q& a, const Q& b) {return cross(a, b);}
	I cross3Q(const Q& p, const Q& a, const Q& b) {return cross(p, a, b);}
	bool ccw(const std::vector<P>& v) {return isCCW(v);}
	bool convex(const std::vector<P>& v) {return isConvex(v);}
	bool sconvex(const std::vector<P>& v) {return isStrictlyConvex(v);}
	bool simple(const std::vector<P>& v) {return isSimple(v);}
	P conv1(const std::complex<I>& c) {return convert(c);}
	// containers
	bool has(const std::map<I, I>& m, I k) {return contains(m, k);}
	bool hasS(const std::set<I>& m, I k) {return contains(m, k);}
	void app(V& a, const V& b) {append(a, b);}
	void appSelf(V& a) {append(a, a);}
	I callF(const V& v, I i) {return asFunction(v)(i);}
	I callT(V v, I i) {return asFunction(std::move(v))(i);}
	I callRef(V& v, I i) {
		auto f = asFunction(v);
		v[i] += 1;
		return f(i);
	}
	I callOwn(V& v, I i) {
		auto f = asFunction(V(v));
		v[i] += 1;
		return f(i);
	}
	auto own(const V& v) {return asFunction(V(v));}
	void appArr(V& a, I x, I y) {
		const I arr[2] = {x, y};
		append(a, arr);
	}
	V flatMove(std::vector<V>&& v) {return flatten(std::move(v));}
	V flatOwn(V&& v) {return flatten(std::move(v));}
	I conv2x(const P& c) {return getX(convert(c));}
	I conv2y(const P& c) {return getY(convert(c));}
	void setX(P& c, I v) {getX(c) = v;}
	void setY(Q& c, I v) {getY(c) = v;}
	I getT(const std::tuple<I, I, I>& t) {return getZ(t);}
	I dotT(const std::tuple<I, I>& a, const std::tuple<I, I>& b) {return dot(a, b);}
	I crossA(const std::array<I, 2>& a, const std::array<I, 2>& b) {return cross(a, b);}
	I crossC(const std::complex<I>& a, const std::complex<I>& b) {return cross(a, b);}
	bool shorterV(const V& a, const V& b) {return shorter()(a, b);}
	bool longerV(const V& a, const V& b) {return longer()(a, b);}
	V flat1(V& v) {return flatten(v);}
	V flat2(std::vector<V>& v) {return flatten(v);}
	V flat3(std::vector<std::vector<V>>& v) {return flatten(v);}
	std::vector<V> flatRows(std::vector<std::vector<V>>& v) {return flatten<V>(v);}
	bool minPQ(I a, I b) {return details::invertCompare<I>()(a, b);}
	bool minPQg(I a, I b) {return details::invertCompare<I, std::greater<I>>()(a, b);}
}
