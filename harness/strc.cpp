#include "strc.hpp"
namespace st
{
	const char* const op_names[NOPS] = { "assign", "append", "push_back", "insert", "erase", "pop_back", "replace", "replace(from,to)", "resize", "resize_front", "reserve", "shrink_to_fit", "clear", "ctor", "copy ctor", "move ctor", "copy assign", "move assign", "swap", "self assign", "s[i]=", "lookups", "operator+", "operator>>", "operator<<", "conversion" };
	std::string show_op(const Plan&, const Op& o)
	{
		static const char* const src[] = { "outside", "own", "other's", "outside" };
		return std::string(o.c & 1 ? "B." : "A.") + op_names[o.code] + " form " + std::to_string(o.c >> 12) + " at~" + std::to_string(o.a) + " n=" + std::to_string(o.b) + " " + src[(o.c >> 2) & 3] + " text";
	}
	void gen(Plan& p, Rng& r)
	{
		p.p["rng"] = (long)(r.next() & 0xffffff);
		const long big = r.chance(1, 4) ? 300 : 70;
		auto size = [&]() -> long {
			switch (r.below(5)) {
				case 0: return (long)r.below(4);
				case 1: return (long)r.below(20);
				case 2: return (long)r.below((uint64_t)big + 1);
				default: {
					static const long edge[] = { 3, 7, 15, 16, 28, 30, 31, 32, 64, 126, 128 };
					return std::max(0l, std::min(edge[r.below(11)] + r.range(-2, 1), big));
				}
			}
		};
		p.p["preA"] = size();
		p.p["preB"] = size();
		p.p["sameid"] = r.chance(1, 2);
		static const int w[NOPS] = { 6, 7, 3, 7, 5, 2, 8, 3, 3, 3, 4, 4, 1, 4, 2, 2, 3, 3, 2, 1, 1, 4, 2, 3, 2, 2 };
		bool on[NOPS];
		bool some = r.chance(1, 3);
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 4);
		on[APPEND] = on[ERASE] = true;
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(1, 6);
		bool faults = !r.chance(1, 6);
		p.tasks.emplace_back();
		long n = r.range(2, 50);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(100000);
			o.b = size();
			o.c = (r.chance(1, 4) ? 1 : 0) | ((long)r.below(4) << 2) | ((long)r.below(4) << 4) | (r.chance(1, 2) ? 0x40 : 0) | (r.chance(1, 3) ? 0x80 : 0) | (r.chance(1, 8) ? 0x100 : 0) | (r.chance(1, 8) ? 0x200 : 0) | ((long)r.below(7920) << 12);
			if (faults && r.chance(1, fden)) {
				if (o.code == READ || o.code == WRITE) {
					static const int kinds[] = { F_IO_ERR, F_IO_EOF, F_IO_SHORT, F_ALLOC };
					o.fk = kinds[r.below(4)];
					o.fn = (int)r.logu(4);
				}
				else {
					static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC_P, F_FUNC, F_FUNC };
					o.fk = kinds[r.below(5)];
					o.fn = o.fk == F_FUNC ? (int)r.logu(6) : 1 + (int)r.below(r.chance(1, 3) ? 3 : 1);
				}
			}
			p.tasks.back().push_back(o);
		}
	}
}
