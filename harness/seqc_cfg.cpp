// one configuration of the sequential container harness, selected by -DCFG=x
#include "seqc.hpp"
#include <seq/devector.hpp>
#include <seq/tiered_vector.hpp>
using namespace sq;
namespace
{
	template<class Vec, class El, bool Tiered, bool Fixed = false>
	struct C
	{
		using V = Vec;
		using E = El;
		static constexpr bool tiered = Tiered, fixed_bs = Fixed;
	};
	using E0 = Elem<false, 0>;
	using E1 = Elem<true, 0>;
	using E2 = Elem<true, 0, false>; // move construction may throw, move assignment not
	using E3 = Elem<false, 0, true>; // the other way round
	using EA = Elem<false, 0, false, 64>; // needs more alignment than operator new gives
#if CFG == 1
	using Cfg = C<seq::devector<E0>, E0, false>;
#define NM "devector"
#define BIG 120
#elif CFG == 2
	using Cfg = C<seq::devector<E1>, E1, false>;
#define NM "devector_throwing_move"
#define BIG 60
#elif CFG == 3
	using Cfg = C<seq::devector<RElem>, RElem, false>;
#define NM "devector_relocatable"
#define BIG 120
#elif CFG == 4
	using Cfg = C<seq::devector<long>, long, false>;
#define NM "devector_long"
#define BIG 200
#elif CFG == 5
	using Cfg = C<seq::tiered_vector<E0>, E0, true>;
#define NM "tiered"
#define BIG 200
#elif CFG == 6
	using Cfg = C<seq::tiered_vector<E1, std::allocator<E1>, 4, 32>, E1, true>;
#define NM "tiered_throwing_move"
#define BIG 120
#elif CFG == 7
	using Cfg = C<seq::tiered_vector<RElem, std::allocator<RElem>, 4>, RElem, true>;
#define NM "tiered_relocatable"
#define BIG 200
#elif CFG == 8
	using Cfg = C<seq::tiered_vector<long, std::allocator<long>, 8>, long, true>;
#define NM "tiered_long"
#define BIG 600
#elif CFG == 9
	using Cfg = C<seq::tiered_vector<E0, std::allocator<E0>, 8, 8>, E0, true, true>;
#define NM "tiered_fixed"
#define BIG 120
#elif CFG == 10
	using Cfg = C<seq::devector<E2>, E2, false>;
#define NM "devector_throwing_construction"
#define BIG 60
#elif CFG == 11
	using Cfg = C<seq::devector<E3>, E3, false>;
#define NM "devector_throwing_assignment"
#define BIG 60
#elif CFG == 12
	using Cfg = C<seq::tiered_vector<E2, std::allocator<E2>, 4, 32>, E2, true>;
#define NM "tiered_throwing_construction"
#define BIG 120
#elif CFG == 13
	using Cfg = C<seq::tiered_vector<E3, std::allocator<E3>, 8, 8>, E3, true, true>;
#define NM "tiered_fixed_throwing_assignment"
#define BIG 100
#elif CFG == 14
	using Cfg = C<seq::devector<EA>, EA, false>;
#define NM "devector_over_aligned"
#define BIG 60
#elif CFG == 15
	using Cfg = C<seq::tiered_vector<EA>, EA, true>;
#define NM "tiered_over_aligned"
#define BIG 120
#endif
	constexpr GenOpt G{ moves_throw<Cfg::E>::value, Cfg::tiered, BIG, false };
	void g(Plan& p, Rng& r) { gen(p, r, G); }
}
SIM_SCENARIO(NM, g, run_cfg<Cfg>, show_op, 1, "C12");
