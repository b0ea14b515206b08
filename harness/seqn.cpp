#include "seqn.hpp"
namespace sn
{
	const char* const op_names[NOPS] = { "push_back(const&)", "push_back(&&)", "emplace_back", "emplace_back_iter", "push_front(const&)", "push_front(&&)", "emplace_front", "emplace_front_iter", "insert(const&)", "insert(&&)", "emplace", "pop_back", "pop_front", "erase", "erase(range)", "erase(many, one by one)", "resize", "resize(v)", "resize_front", "resize_front(v)", "assign(n,v)", "assign(range)", "assign(input range)", "clear", "shrink_to_fit", "sort", "reserve", "copy ctor", "copy assign", "move ctor", "move ctor(allocator)", "move assign", "swap", "self assign", "push(own element)", "ctor(n)", "ctor(n,v)", "ctor(range)", "ctor(input range)", "*it=" };
	std::string show_op(const Plan&, const Op& o)
	{
		return std::string(o.c & 1 ? "B." : "A.") + op_names[o.code] + " pos~" + std::to_string(o.a) + " n=" + std::to_string(o.b);
	}
	void gen(Plan& p, Rng& r, bool throwing)
	{
		p.p["rng"] = (long)(r.next() & 0xffffff);
		const long big = r.chance(1, 6) ? 600 : 200;
		auto size = [&](long big) -> long {
			switch (r.below(6)) {
				case 0: return 0;
				case 1: return (long)r.below(4);
				case 2: return (long)r.below(20);
				case 3:
				case 4: return (long)r.below((uint64_t)big + 1);
				default: {
					static const long edge[] = { 1, 32, 63, 64, 128, 192, 256 };
					return std::max(0l, std::min(edge[r.below(7)] + r.range(-1, 1), big));
				}
			}
		};
		p.p["preA"] = size(big);
		p.p["preB"] = r.chance(1, 2) ? 0 : size(big / 2);
		p.p["prefront"] = r.chance(1, 2) ? 0 : r.range(1, 2);
		p.p["final_clear"] = r.chance(1, 2);
		p.p["sameid"] = r.chance(1, 2);
		p.p["lazy"] = r.chance(1, 2);
		static const int w[NOPS] = { 3, 2, 3, 2, 3, 2, 3, 2, 5, 4, 5, 5, 5, 8, 5, 4, 3, 3, 3, 3, 2, 2, 2, 1, 4, 4, 1, 2, 2, 1, 1, 1, 2, 1, 2, 1, 1, 1, 1, 2 };
		bool on[NOPS];
		bool some = r.chance(1, 3);
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 4);
		on[PUSHB] = on[ERASE] = true;
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(1, 8);
		bool faults = !r.chance(1, 8);
		p.tasks.emplace_back();
		long n = r.range(2, 60);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(1000);
			o.b = o.code == ALIAS || o.code == SORT || o.code == COPYCTOR || o.code == MOVECTOR_A || o.code == ERASE_MANY ? (long)r.below(1000) : size(o.code == ERASE_R ? (r.chance(1, 2) ? 40 : 200) : big);
			o.c = (r.chance(1, 4) ? 1 : 0) | (r.chance(1, 2) ? 2 : 0) | ((long)r.below(4) << 2) | (r.chance(1, 3) ? 16 : 0);
			if (faults && r.chance(1, fden)) {
				static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC_P, F_COPY, F_COPY, F_CTOR, F_FUNC, F_FUNC, F_ANY, F_MOVE, F_MOVE, F_ANY };
				o.fk = kinds[r.below(throwing ? 12 : 9)];
				o.fn = (int)r.logu(r.chance(1, 2) ? 2 : o.code == SORT ? 10 : 7);
			}
			p.tasks.back().push_back(o);
		}
	}
}
