// one configuration of the concurrent map harness, selected by -DCFG=x
#include "cmap.hpp"
using namespace cm;
namespace
{
#if CFG == 1 // map, nothrow-move elements, one shard, spinlocks, throwing equality
	struct Cfg
	{
		using Key = Elem<false, 0>;
		using Val = Elem<false, 1>;
		using Map = seq::concurrent_map<Key, Val, HashT, EqT, std::allocator<std::pair<Key, Val>>, seq::low_concurrency>;
		static constexpr bool is_set = false, transparent = true, throwing_move = false, concurrent = true, sharded = false;
	};
#define NM "low"
#elif CFG == 2 // map, read-write spinlocks
	struct Cfg
	{
		using Key = Elem<false, 0>;
		using Val = Elem<false, 1>;
		using Map = seq::concurrent_map<Key, Val, Hash, EqN, std::allocator<std::pair<Key, Val>>, seq::low_concurrency_shared>;
		static constexpr bool is_set = false, transparent = false, throwing_move = false, concurrent = true, sharded = false;
	};
#define NM "low_shared"
#elif CFG == 3 // elements whose moves may throw
	struct Cfg
	{
		using Key = Elem<true, 0>;
		using Val = Elem<true, 1>;
		using Map = seq::concurrent_map<Key, Val, Hash, Eq, std::allocator<std::pair<Key, Val>>, 1u | (unsigned)seq::shared_concurrency>;
		static constexpr bool is_set = false, transparent = false, throwing_move = true, concurrent = true, sharded = true;
	};
#define NM "throwing_move"
#elif CFG == 4 // set
	struct Cfg
	{
		using Key = SetElem<false>;
		using Map = seq::concurrent_set<Key, Hash, Eq, std::allocator<Key>, 1u>;
		static constexpr bool is_set = true, transparent = false, throwing_move = false, concurrent = true, sharded = true;
	};
#define NM "set"
#elif CFG == 5 // trivially copyable, defaults
	struct Cfg
	{
		using Key = long;
		using Val = Pod;
		using Map = seq::concurrent_map<long, Pod, seq::hasher<long>, std::equal_to<>, std::allocator<std::pair<long, Pod>>, seq::medium_concurrency>;
		static constexpr bool is_set = false, transparent = false, throwing_move = false, concurrent = true, sharded = true;
	};
#define NM "medium_pod"
#elif CFG == 6 // not concurrent
	struct Cfg
	{
		using Key = Elem<true, 0>;
		using Val = Elem<false, 1>;
		using Map = seq::concurrent_map<Key, Val, Hash, Eq, std::allocator<std::pair<Key, Val>>, seq::no_concurrency>;
		static constexpr bool is_set = false, transparent = false, throwing_move = true, concurrent = false, sharded = false;
	};
#define NM "none"
#elif CFG == 7 // set, shared, one shard
	struct Cfg
	{
		using Key = SetElem<true>;
		using Map = seq::concurrent_set<Key, HashT, EqT, std::allocator<Key>, seq::low_concurrency_shared>;
		static constexpr bool is_set = true, transparent = false, throwing_move = true, concurrent = true, sharded = false;
	};
#define NM "set_shared"
#elif CFG == 8 // trivially copyable elements, controlled hash
	struct Cfg
	{
		using Key = long;
		using Val = Pod;
		using Map = seq::concurrent_map<long, Pod, Hash, EqN, std::allocator<std::pair<long, Pod>>, seq::low_concurrency>;
		static constexpr bool is_set = false, transparent = false, throwing_move = false, concurrent = true, sharded = false;
	};
#define NM "low_pod"
#elif CFG == 9 // key: only move construction may throw, value: only move assignment
	struct Cfg
	{
		using Key = Elem<true, 0, false>;
		using Val = Elem<false, 1, true>;
		using Map = seq::concurrent_map<Key, Val, Hash, Eq, std::allocator<std::pair<Key, Val>>, seq::low_concurrency>;
		static constexpr bool is_set = false, transparent = false, throwing_move = true, concurrent = true, sharded = false;
	};
#define NM "throwing_construction"
#elif CFG == 10 // elements that need more alignment than operator new gives
	struct Cfg
	{
		using Key = Elem<false, 0, false, 64>;
		using Val = Elem<false, 1>;
		using Map = seq::concurrent_map<Key, Val, Hash, Eq, std::allocator<std::pair<Key, Val>>, 1u>;
		static constexpr bool is_set = false, transparent = false, throwing_move = false, concurrent = true, sharded = true;
	};
#define NM "over_aligned"
#endif
	constexpr GenOpt G{ Cfg::is_set, Cfg::throwing_move, Cfg::concurrent, Cfg::sharded };
	template<int P>
	void g(Plan& p, Rng& r)
	{
		gen(p, r, P, G);
	}
}
#ifdef CMAP_PAR
SIM_SCENARIO("par_" NM, g<P_PAR>, run_cfg<Cfg>, show_op, 1, "C08");
#else
SIM_SCENARIO("keys_" NM, g<P_KEYS>, run_cfg<Cfg>, show_op, 1, "C01");
SIM_SCENARIO("visits_" NM, g<P_VISITS>, run_cfg<Cfg>, show_op, 1, "C02");
SIM_SCENARIO("bulk_" NM, g<P_BULK>, run_cfg<Cfg>, show_op, 1, "C03");
SIM_SCENARIO("live_" NM, g<P_LIVE>, run_cfg<Cfg>, show_op, 1, "C04");
SIM_SCENARIO("faults_" NM, g<P_FAULTS>, run_cfg<Cfg>, show_op, 1, "C05");
SIM_SCENARIO("all_" NM, g<P_ALL>, run_cfg<Cfg>, show_op, 1, "C06");
SIM_SCENARIO("seqf_" NM, g<P_SEQF>, run_cfg<Cfg>, show_op, 1, "C05");
#endif
