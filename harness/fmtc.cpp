#include "fmtc.hpp"
namespace fm
{
	const char* const op_names[NOPS] = { "string", "tiny string", "conversion", "append", "append to tiny string", "buffer", "bounded buffer", "iterator", "stream", "bad stream", "copy" };
	const char* const kind_names[KINDS] = { "integer", "hexadecimal", "binary", "double", "character", "text", "streamed type", "custom type", "nested", "several values", "several types", "nested groups", "joined values", "joined integers", "joined types", "joined texts", "slots", "typed slots", "nested slots", "own table", "shared table", "split text", "dynamic slots", "dynamic typed slots" };
	std::string show_op(const Plan&, const Op& o)
	{
		std::string s = op_names[o.code];
		s += std::string(" of ") + kind_names[o.a & 63] + " v=" + std::to_string(o.b) + " w=" + std::to_string(o.c);
		if (o.a >> 6 & 3)
			s += std::string(" ") + "-lrc"[o.a >> 6 & 3] + std::to_string(o.a >> 8 & 255);
		return s;
	}
	void gen(Plan& p, Rng& r)
	{
		static const int w[NOPS] = { 4, 2, 3, 3, 2, 4, 3, 3, 8, 1, 2 };
		static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC_P, F_FUNC, F_IO_ERR, F_IO_SHORT };
		bool faults = r.chance(2, 3), any = r.chance(1, 2);
		unsigned fden = (unsigned)r.range(2, 8);
		long vr = (long)r.logu(12) + 1;
		long nt = r.range(1, 4);
		for (long t = 0; t < nt; ++t) {
			p.tasks.emplace_back();
			for (long n = r.range(1, 14); n > 0; --n) {
				Op o;
				int k = (int)r.below(35);
				for (o.code = 0;; ++o.code) {
					if (k < w[o.code])
						break;
					k -= w[o.code];
				}
				o.a = (long)r.below(any ? KINDS : K_ANY);
				if (r.chance(1, 2))
					o.a |= (long)(r.range(1, 3) << 6 | r.range(1, r.chance(1, 2) ? 12 : 80) << 8);
				o.a |= (long)r.below(3) << 16;
				o.b = (long)r.below((uint64_t)vr);
				o.c = (long)r.below((uint64_t)vr);
				if (faults)
					chance_fault(r, o, kinds, 6, 1, fden, 4);
				p.tasks.back().push_back(o);
			}
		}
	}
}
