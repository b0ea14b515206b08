// one configuration of the sequence harness, selected by -DCFG=x
#include "seqn.hpp"
using namespace sn;
namespace
{
	template<class Vec, class El, bool Ids = false, bool Prop = false>
	struct C
	{
		using V = Vec;
		using E = El;
		static constexpr bool ids = Ids, propagate = Prop;
	};
	using E0 = Elem<false, 0>;
	using E1 = Elem<true, 0>;
	using E2 = Elem<true, 0, false>; // move construction may throw, move assignment not
	using E3 = Elem<false, 0, true>; // the other way round
	using EA = Elem<false, 0, false, 64>; // needs more alignment than operator new gives
#if CFG == 1
	using Cfg = C<seq::sequence<E0>, E0>;
#define NM "sequence"
#elif CFG == 2
	using Cfg = C<seq::sequence<E1>, E1>;
#define NM "sequence_throwing_move"
#elif CFG == 3
	using Cfg = C<seq::sequence<RElem, std::allocator<RElem>, true>, RElem>;
#define NM "sequence_relocatable_aligned"
#elif CFG == 4
	using Cfg = C<seq::sequence<long>, long>;
#define NM "sequence_long"
#elif CFG == 5
	using Cfg = C<seq::sequence<E0, IdAlloc<E0, true>>, E0, true, true>;
#define NM "sequence_propagating_allocator"
#elif CFG == 6
	using Cfg = C<seq::sequence<E1, IdAlloc<E1, false>, true>, E1, true, false>;
#define NM "sequence_allocator"
#elif CFG == 7
	using Cfg = C<seq::sequence<E2>, E2>;
#define NM "sequence_throwing_construction"
#elif CFG == 8
	using Cfg = C<seq::sequence<E3>, E3>;
#define NM "sequence_throwing_assignment"
#elif CFG == 9
	using Cfg = C<seq::sequence<EA>, EA>;
#define NM "sequence_over_aligned"
#endif
	void g(Plan& p, Rng& r) { gen(p, r, moves_throw<Cfg::E>::value); }
}
SIM_SCENARIO(NM, g, run_cfg<Cfg>, show_op, 1, "C13");
