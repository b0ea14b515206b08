#include "shar.hpp"
namespace sh
{
	const char* const op_names[NOPS] = { "shared find", "shared bounds", "shared walk", "shared partial walk", "shared copy", "shared compare", "shared misc", "assign from shared", "add", "add many", "remove", "remove some", "clear", "move", "swap", "fresh", "reserve", "check" };
	std::string show_op(const Plan&, const Op& o)
	{
		std::string s = op_names[o.code];
		if (o.code == R_FIND || o.code == R_BOUNDS || o.code == R_PARTIAL || o.code == R_MISC || (o.code >= W_ADD && o.code <= W_DEL_SOME) || o.code >= W_RESERVE)
			s += " k=" + std::to_string(o.a);
		if (o.code == W_ADD_MANY || o.code == R_PARTIAL)
			s += " n=" + std::to_string(o.b);
		return s;
	}
	void gen(Plan& p, Rng& r)
	{
		static const int w[NOPS] = { 8, 8, 3, 4, 2, 2, 5, 2, 5, 3, 4, 2, 1, 2, 2, 1, 1, 2 };
		long range = (long)r.logu(9) + 2;
		p.p["shape"] = (long)r.below(6);
		bool faults = r.chance(1, 2);
		unsigned fden = (unsigned)r.range(3, 12);
		auto one = [&](bool build) {
			Op o;
			int lo = build ? W_ADD : 0, tot = 0;
			for (int i = lo; i < NOPS; ++i)
				tot += w[i];
			int k = (int)r.below((uint64_t)tot);
			for (o.code = lo;; ++o.code) {
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below((uint64_t)range);
			o.b = (long)r.logu(build ? 8 : 6);
			if (!build && faults && r.chance(1, fden)) {
				o.fk = r.chance(1, 4) ? F_ALLOC_P : F_ALLOC;
				o.fn = (int)r.logu(4);
			}
			return o;
		};
		p.tasks.emplace_back();
		// empty shared instances too
		for (long n = r.chance(1, 6) ? 0 : (long)r.logu(4); n > 0; --n)
			p.tasks[0].push_back(one(true));
		long nt = r.range(2, 4);
		for (long t = 0; t < nt; ++t) {
			p.tasks.emplace_back();
			for (long n = r.range(1, 12); n > 0; --n)
				p.tasks.back().push_back(one(false));
		}
	}
}
