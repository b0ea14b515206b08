// one configuration of the hold_any harness, selected by -DCFG=x
#include "anyc.hpp"
using namespace an;
namespace
{
	template<class Any, bool Reloc = false, bool Hash = true>
	struct C
	{
		using A = Any;
		static constexpr bool reloc = Reloc, hash = Hash;
	};
#if CFG == 1
	using Cfg = C<seq::any>;
#define NM "any"
#elif CFG == 2
	using Cfg = C<seq::r_any, true>;
#define NM "r_any"
#elif CFG == 3
	using Cfg = C<seq::hold_any<seq::any_default_interface, 48, 8, false>>;
#define NM "any_48"
#elif CFG == 4
	using Cfg = C<seq::hold_any<seq::any_no_hash_interface, 48, 16, true>, true, false>;
#define NM "r_nh_any_48"
#elif CFG == 5
	using Cfg = C<seq::hold_any<seq::any_no_hash_interface, 16, 16, false>, false, false>;
#define NM "nh_any_16"
#endif
}
SIM_SCENARIO(NM, gen, run_cfg<Cfg>, show_op, 1, "C18");
