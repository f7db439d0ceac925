#include "validate.h"
#include <list>
// instantiations of the output operators the analysis looks at
namespace drv {
	using S = std::string;
	using I = Integer;
	void bind(OutputStream& r, std::ostream& os) {r = OutputStream(os);}
	void bindFile(OutputStream& r, std::string_view p, std::ios_base::openmode m) {r = OutputStream(std::filesystem::path(p), m);}
	void bindNone(OutputStream& r) {r = OutputStream();}
	// plain values
	void pInt(OutputStream& o, I x) {o << x;}
	void pStr(OutputStream& o, const S& x) {o << x;}
	void pView(OutputStream& o, std::string_view x) {o << x;}
	void pBool(OutputStream& o, bool x) {o << x;}
	void pReal(OutputStream& o, Real x) {o << x;}
	void pChar(OutputStream& o, char x) {o << x;}
	void pLit(OutputStream& o) {o << "lit";}
	void pEndl(OutputStream& o) {o << std::endl;}
	void pFlush(OutputStream& o) {o << std::flush;}
	// collections
	void cVecInt(OutputStream& o, const std::vector<I>& x) {o << x;}
	void cVecStr(OutputStream& o, const std::vector<S>& x) {o << x;}
	void cList(OutputStream& o, const std::list<I>& x) {o << x;}
	void cDeque(OutputStream& o, const std::deque<I>& x) {o << x;}
	void cArr(OutputStream& o, const std::array<I, 3>& x) {o << x;}
	void cCarr(OutputStream& o, const I (&x)[3]) {o << x;}
	void cPair(OutputStream& o, const std::pair<I, S>& x) {o << x;}
	void cTup1(OutputStream& o, const std::tuple<I>& x) {o << x;}
	void cTup3(OutputStream& o, const std::tuple<I, S, I>& x) {o << x;}
	void cNest(OutputStream& o, const std::vector<std::vector<I>>& x) {o << x;}
	void cVecPair(OutputStream& o, const std::vector<std::pair<I, S>>& x) {o << x;}
	void cTupPair(OutputStream& o, const std::tuple<I, std::pair<I, I>, I>& x) {o << x;}
	// join
	void jVec(OutputStream& o, const std::vector<I>& x, char s) {o << join(x, s);}
	void jVecD(OutputStream& o, const std::vector<I>& x) {o << join(x);}
	void jVecMv(OutputStream& o, std::vector<I>& x, char s) {o << join(std::move(x), s);}
	void jVecStr(OutputStream& o, const std::vector<S>& x, char s) {o << join(x, s);}
	void jIter(OutputStream& o, const std::vector<I>& x, char s) {o << join(x.begin(), x.end(), s);}
	void jIterD(OutputStream& o, const std::vector<I>& x) {o << join(x.begin(), x.end());}
	void jIterTail(OutputStream& o, const std::vector<I>& x, char s) {o << join(x.begin() + 1, x.end(), s);}
	void jArr(OutputStream& o, const std::array<I, 3>& x, char s) {o << join(x, s);}
	void jArrD(OutputStream& o, const std::array<I, 3>& x) {o << join(x);}
	void jCarr(OutputStream& o, const I (&x)[3], char s) {o << join(x, s);}
	void jStr(OutputStream& o, const S& x, char s) {o << join(x, s);}
	void jLit(OutputStream& o, char s) {o << join("abc", s);}
	void jLit0(OutputStream& o, char s) {o << join("", s);}
	void jPair(OutputStream& o, const std::pair<I, S>& x, char s) {o << join(x, s);}
	void jTup(OutputStream& o, const std::tuple<I, S, I>& x, char s) {o << join(x, s);}
	void jTupD(OutputStream& o, const std::tuple<I, S, I>& x) {o << join(x);}
	void jTupMv(OutputStream& o, std::tuple<I, S, I>& x, char s) {o << join(std::move(x), s);}
	void jList(OutputStream& o, const I& a, const S& b, const I& c, char s) {o << join({a, b, c}, s);}
	void jListD(OutputStream& o, const I& a, const S& b, const I& c) {o << join({a, b, c});}
	void jNest(OutputStream& o, const std::vector<std::vector<I>>& x, char s) {o << join(x, s);}
	S sVec(const std::vector<I>& x, char s) {return join(x, s).asString();}
	S sVecOp(const std::vector<I>& x, char s) {return static_cast<S>(join(x, s));}
}
