#include "validate.h"
namespace drv {
	using Log = ConstraintsLogger;
	using Name = const std::string&;
	void touch(Log& l, Name n) {l[n];}
	void logI(Log& l, Name n, Integer a, Integer b, Integer v) {l[n].log(a, b, v);}
	void logZ(Log& l, Name n, Integer a, Integer b, std::size_t v) {l[n].log(a, b, v);}
	void logR(Log& l, Name n, Real a, Real b, Real v) {l[n].log(a, b, v);}
	void logD(Log& l, Name n, Real a, Real b, double v) {l[n].log(a, b, v);}
	void logS(Log& l, Name n, Integer a, Integer b, const std::string& v) {l[n].log(a, b, v);}
	void logV(Log& l, Name n, Integer a, Integer b, const std::vector<Integer>& v) {l[n].log(a, b, v);}
	void write(const Log& l) {l.write();}
	void make(std::string_view f) {Log l(f);}
	void scope(std::string_view f, Name n, Integer a, Integer b, Integer v) {
		Log l(f);
		l[n].log(a, b, v);
	}
	void moved(std::string_view f, Name n, Integer a, Integer b, Integer v) {
		Log l;
		l = Log(f);
		l[n].log(a, b, v);
	}
	void built(std::string_view f, Name n, Integer a, Integer b, Integer v) {
		Log k(f);
		k[n].log(a, b, v);
		Log l(std::move(k));
	}
	void anon(Name n, Integer a, Integer b, Integer v) {
		Log l;
		l[n].log(a, b, v);
	}
}
