#include "validate.h"
// reference objects and observers for the initialisation of the roles
namespace drv {
	InputStream inFile(std::string_view path, bool s, bool c, Verdicts::Verdict v, Real a, Real r) {
		return InputStream(std::filesystem::path(path), s, c, ValidateBase::juryOut, v, a, r);
	}
	InputStream inStd(bool s, bool c, Verdicts::Verdict v, Real a, Real r) {
		return InputStream(std::cin, s, c, ValidateBase::juryOut, v, a, r);
	}
	OutputStream outFile(std::string_view dir, std::string_view name, std::ios_base::openmode mode) {
		return OutputStream(std::filesystem::path(dir) / name, mode);
	}
	OutputStream outCout() {return OutputStream(std::cout);}
	OutputStream outCerr() {return OutputStream(std::cerr);}
	ConstraintsLogger logger(std::string_view file) {return ConstraintsLogger(file);}
	ConstraintsLogger nologger() {return ConstraintsLogger();}
	InputStream inNone() {return InputStream();}
	OutputStream outNone() {return OutputStream();}
	Verdicts::Verdict vAC() {return Verdicts::AC;}
	Verdicts::Verdict vWA() {return Verdicts::WA;}
	Verdicts::Verdict vFAIL() {return Verdicts::FAIL;}
	Verdicts::Verdict vPE() {return Verdicts::PE;}
	Real absTol() {return ValidateBase::floatAbsTol;}
	Real relTol() {return ValidateBase::floatRelTol;}
	bool space() {return ValidateBase::spaceSensitive;}
	bool caseS() {return ValidateBase::caseSensitive;}
	void setAbs(Real x) {ValidateBase::floatAbsTol = x;}
	void setRel(Real x) {ValidateBase::floatRelTol = x;}
	void setSpace(bool x) {ValidateBase::spaceSensitive = x;}
	void setCase(bool x) {ValidateBase::caseSensitive = x;}
	bool initialized() {return details::initialized();}
	void verdict(std::ostream& os, const Verdicts::Verdict& v) {os << v;}
	void verdictOut(OutputStream& os, const Verdicts::Verdict& v) {os << v;}
	void verdictMsg(OutputStream& os, std::string_view s, const Verdicts::Verdict& v) {os << s << v;}
	void verdictExit(const Verdicts::Verdict& v) {v.exit();}
	int verdictCode(const Verdicts::Verdict& v) {return v;}
	bool odd(Integer x) {return (x & 1) != 0;}
	void guard(const ::details::InitGuard& g) {g.~InitGuard();}
	InputStream inState(std::string_view dir, std::string_view name) {
		return InputStream(std::filesystem::path(dir) / name, false, true, ValidateBase::juryOut, Verdicts::FAIL);
	}
	Integer pass() {return Multipass::pass;}
	void say(OutputStream& os, std::string_view s) {os << s;}
	void setPass(Integer p) {Multipass::pass = p;}
}
