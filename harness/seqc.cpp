#include "seqc.hpp"
namespace sq
{
	const char* const op_names[NOPS] = { "push_back(const&)", "push_back(&&)", "emplace_back", "push_front(const&)", "push_front(&&)", "emplace_front", "pop_back", "pop_front", "insert(const&)", "insert(&&)", "emplace", "insert(n,v)", "insert(range)", "insert(input range)", "erase", "erase(range)", "resize", "resize(v)", "resize_front", "resize_front(v)", "assign(n,v)", "assign(range)", "assign(input range)", "clear", "shrink_to_fit", "reserve", "reserve_back", "reserve_front", "copy ctor", "copy assign", "move ctor", "move assign", "swap", "push_back(own element)", "push_front(own element)", "insert(own element)", "self assign", "ctor(n)", "ctor(n,v)", "ctor(range)", "ctor(input range)", "sort", "[]=", "at" };
	std::string show_op(const Plan&, const Op& o)
	{
		return std::string(o.c & 1 ? "B." : "A.") + op_names[o.code] + " pos~" + std::to_string(o.a) + " n=" + std::to_string(o.b) + (o.c & 2 ? " (index)" : "");
	}
	void gen(Plan& p, Rng& r, GenOpt g)
	{
		p.p["rng"] = (long)(r.next() & 0xffffff);
		auto size = [&](long big) -> long {
			switch (r.below(6)) {
				case 0: return 0;
				case 1: return (long)r.below(4);
				case 2:
				case 3: return (long)r.below(20);
				case 4: return (long)r.below((uint64_t)big + 1);
				default: {
					static const long edge[] = { 1, 2, 4, 8, 16, 32, 64, 128, 256 };
					long e = edge[r.below(9)] + r.range(-1, 1);
					return std::min(e, big);
				}
			}
		};
		p.p["preA"] = size(g.big);
		p.p["preB"] = r.chance(1, 2) ? 0 : size(g.big / 2);
		p.p["prefront"] = r.chance(1, 2);
		p.p["final_clear"] = r.chance(1, 2);
		static const int w[NOPS] = { 4, 3, 4, 4, 3, 4, 6, 6, 5, 4, 5, 3, 4, 4, 6, 4, 3, 3, 3, 3, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 3, 1, 1, 1, 1, 1, 1, 2, 1 };
		// some runs concentrate on few operations
		bool on[NOPS];
		bool some = r.chance(1, 3);
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 4);
		on[PUSHB] = on[INS] = true;
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(1, 8);
		bool faults = !r.chance(1, 8);
		p.tasks.emplace_back();
		long n = r.range(2, 40);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(1000);
			o.b = o.code == ALIAS_PB || o.code == ALIAS_PF || o.code == ALIAS_INS ? (long)r.below(1000) : size(o.code == INS_N || o.code == INS_RA || o.code == INS_IN || o.code == ERASE_R ? 40 : g.big);
			o.c = (r.chance(1, 4) ? 1 : 0) | (r.chance(1, 2) ? 2 : 0) | ((long)r.below(4) << 2) | (r.chance(1, 3) ? 16 : 0);
			if (faults && r.chance(1, fden)) {
				static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC_P, F_COPY, F_COPY, F_CTOR, F_FUNC, F_CMP, F_ANY, F_MOVE, F_MOVE, F_ANY };
				o.fk = kinds[r.below(g.throwing ? 12 : 9)];
				o.fn = (int)r.logu(r.chance(1, 2) ? 2 : 6);
			}
			p.tasks.back().push_back(o);
		}
	}
}
