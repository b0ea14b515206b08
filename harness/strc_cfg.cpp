// one configuration of the string harness, selected by -DCFG=x
#include "strc.hpp"
using namespace st;
namespace
{
	template<class Vec, bool Ids = false, bool Prop = false>
	struct C
	{
		using V = Vec;
		static constexpr bool ids = Ids, propagate = Prop;
	};
	template<class Ch, class A, size_t N>
	using S = seq::tiny_string<Ch, std::char_traits<Ch>, A, N>;
#if CFG == 1
	using Cfg = C<seq::tstring>;
#define NM "tstring"
#elif CFG == 2
	using Cfg = C<S<char, IdAlloc<char, false>, 28>, true, false>;
#define NM "string28_allocator"
#elif CFG == 3
	using Cfg = C<S<char, IdAlloc<char, true>, 0>, true, true>;
#define NM "string_propagating_allocator"
#elif CFG == 4
	using Cfg = C<seq::wtstring>;
#define NM "wtstring"
#elif CFG == 5
	using Cfg = C<S<char, std::allocator<char>, 118>>;
#define NM "string118"
#endif
}
SIM_SCENARIO(NM, gen, run_cfg<Cfg>, show_op, 1, "C17");
