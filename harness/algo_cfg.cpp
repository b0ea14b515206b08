// one configuration of the range algorithm harness, selected by -DCFG=n
#include "algo.hpp"
using namespace al;
namespace
{
	using E0 = Elem<false, 0>;
	using E1 = Elem<true, 0>;
	using E2 = Elem<true, 0, false>; // move construction may throw, move assignment not
	using E3 = Elem<false, 0, true>; // the other way round
	template<class Cont>
	struct C
	{
		using V = Cont;
	};
#if CFG == 1
	using Cfg = C<std::vector<E0>>;
#define NM "algo_vector"
#elif CFG == 2
	using Cfg = C<std::vector<E1>>;
#define NM "algo_vector_throwing_move"
#elif CFG == 3
	using Cfg = C<std::vector<RElem>>;
#define NM "algo_vector_relocatable"
#elif CFG == 4
	using Cfg = C<std::vector<Pod>>;
#define NM "algo_vector_pod"
#elif CFG == 5
	using Cfg = C<std::deque<E1>>;
#define NM "algo_deque_throwing_move"
#elif CFG == 6
	using Cfg = C<std::deque<RElem>>;
#define NM "algo_deque_relocatable"
#elif CFG == 7
	using Cfg = C<std::list<E0>>;
#define NM "algo_list"
#elif CFG == 8
	using Cfg = C<std::list<Pod>>;
#define NM "algo_list_pod"
#elif CFG == 9
	using Cfg = C<std::vector<E2>>;
#define NM "algo_vector_throwing_construction"
#elif CFG == 10
	using Cfg = C<std::deque<E3>>;
#define NM "algo_deque_throwing_assignment"
#endif
}
SIM_SCENARIO(NM, gen, run_cfg<Cfg>, show_op, 1, "C20");
