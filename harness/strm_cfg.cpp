// one configuration of the input stream harness, selected by -DCFG=n
#include "strm.hpp"
using namespace sm;
namespace
{
	template<Kind K, class Stream, bool Wide = false>
	struct C
	{
		using S = Stream;
		static constexpr Kind kind = K;
		static constexpr bool wide = Wide;
	};
#if CFG == 1
	using Cfg = C<FIL, seq::file_input_stream<>>;
#define NM "file32"
#elif CFG == 2
	using Cfg = C<FIL, seq::file_input_stream<1>>;
#define NM "file1"
#elif CFG == 3
	using Cfg = C<STD, seq::std_input_stream<char>>;
#define NM "istream32"
#elif CFG == 4
	using Cfg = C<STD, seq::std_input_stream<char, 7>>;
#define NM "istream7"
#elif CFG == 5
	using Cfg = C<STD, seq::std_input_stream<wchar_t, 16>, true>;
#define NM "wistream16"
#elif CFG == 6
	using Cfg = C<BUF, seq::buffer_input_stream<char>>;
#define NM "buffer"
#elif CFG == 7
	using Cfg = C<BUF, seq::buffer_input_stream<char16_t>, true>;
#define NM "buffer16"
#endif
}
SIM_SCENARIO(NM, gen, run_cfg<Cfg>, show_op, 1, "C19");
