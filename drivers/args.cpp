#include "validate.h"
// instantiations the analysis looks at
namespace drv {
	auto strings(const Command& c) {return c.asStrings();}
	auto integers(const Command& c) {return c.asIntegers();}
	auto reals(const Command& c) {return c.asReals();}
	auto strings0(const Command& c) {return c.asStrings<0>();}
	auto strings1(const Command& c) {return c.asStrings<1>();}
	auto strings2(const Command& c) {return c.asStrings<2>();}
	auto integers2(const Command& c) {return c.asIntegers<2>();}
	auto reals3(const Command& c) {return c.asReals<3>();}
	Command cmd(const CommandParser& p, std::string_view s) {return p[s];}
	Command raw(const CommandParser& p, std::string_view s) {return p.getRaw(s);}
	Command all(const CommandParser& p) {return p.getRaw();}
	std::string_view token(const CommandParser& p, Integer i) {return p[i];}
	bool exists(const Command& c) {return c.exists();}
	bool truth(const Command& c) {return static_cast<bool>(c);}
	Integer count(const Command& c) {return c.parameterCount();}
	Parameter param(const Command& c, Integer i) {return c[i];}
	bool pexists(const Parameter& c) {return c.exists();}
	std::string first(const Command& c) {return c.asString();}
	std::string firstOr(const Command& c, std::string_view s) {return c.asString(s);}
	Integer firstInt(const Command& c) {return c.asInteger();}
	Integer firstIntOr(const Command& c, Integer s) {return c.asInteger(s);}
	Real firstReal(const Command& c) {return c.asReal();}
	Real firstRealOr(const Command& c, Real s) {return c.asReal(s);}
	std::string pstring(const Parameter& c) {return c.asString();}
	std::string pstringOr(const Parameter& c, std::string_view s) {return c.asString(s);}
	Integer pint(const Parameter& c) {return c.asInteger();}
	Integer pintOr(const Parameter& c, Integer s) {return c.asInteger(s);}
	Real preal(const Parameter& c) {return c.asReal();}
	Real prealOr(const Parameter& c, Real s) {return c.asReal(s);}
}
