#include <cstddef>
#include <utility>
#include "rng.h"
#include "secure_rng.h"
namespace drv {
	using W = std::uint64_t;
	W xstep(Xoshiro256ss& g) {return g();}
	void xjump(Xoshiro256ss& g) {g.jump();}
	Xoshiro256ss xstate(const std::array<W, 4>& s) {return Xoshiro256ss(s);}
	Xoshiro256ss xseed(W s) {return Xoshiro256ss(s);}
	W xmin() {return Xoshiro256ss::min();}
	W xmax() {return Xoshiro256ss::max();}
	AES akey(const AES::Key& k) {return AES(k);}
	AES::Block acrypt(const AES& a, const AES::Block& b) {return a(b);}
	AES_RNG rseed(W s) {return AES_RNG(s);}
	AES_RNG rkey(const AES::Key& k, const AES::Block& b) {return AES_RNG(k, b);}
	W rstep(AES_RNG& g) {return g();}
	W rmin() {return AES_RNG::min();}
	W rmax() {return AES_RNG::max();}
	// the results carry exactly 64 uniformly distributed bits
	static_assert(std::is_same<Xoshiro256ss::result_type, W>::value, "");
	static_assert(std::is_same<AES_RNG::result_type, W>::value, "");
}
