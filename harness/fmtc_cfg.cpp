// one configuration of the formatting harness, selected by -DCFG=n
#include "fmtc.hpp"
using namespace fm;
#if CFG == 1
using C = char;
#define NM "format_char"
#elif CFG == 2
using C = wchar_t;
#define NM "format_wchar"
#endif
namespace
{
	void run(const Plan& p) { run_cfg<C>(p); }
}
SIM_SCENARIO(NM, gen, run, show_op, 1, "C10");
