#include "algo.hpp"
namespace al
{
	long g_calls, g_limit;
	const char* const op_names[NOPS] = { "net_sort", "net_sort_size", "inplace_merge", "inplace_merge of runs", "merge", "merge of moved elements", "reverse_descending", "unique" };
	std::string show_op(const Plan&, const Op& o)
	{
		static const char* const b[] = { "default", "medium", "small", "tiny", "null", "user", "implicit" };
		return std::string(op_names[o.code]) + " n=" + std::to_string(o.a) + " buffer " + b[o.b % B_COUNT] + " input #" + std::to_string(o.c);
	}
	void make_keys(std::vector<long>& k, size_t n, Rng& r)
	{
		k.clear();
		// few keys, many keys, a mix
		long u = r.chance(1, 3) ? (long)r.below(4) + 1 : r.chance(1, 2) ? (long)(n / 4) + 2 : (long)n * 4 + 8;
		auto rnd = [&] { return 1 + (long)r.below((uint64_t)u); };
		switch (r.below(8)) {
			default:
				for (size_t i = 0; i < n; ++i)
					k.push_back(rnd());
				break;
			case 2: // ascending or descending runs of random lengths
			case 3: {
				size_t maxrun = r.chance(1, 2) ? n / 2 + 2 : 2 + r.below(200);
				bool only_up = r.chance(1, 4);
				while (k.size() < n) {
					size_t len = 1 + r.below(maxrun), b = k.size();
					for (size_t i = 0; i < len && k.size() < n; ++i)
						k.push_back(rnd());
					if (only_up || r.chance(1, 2))
						std::sort(k.begin() + (long)b, k.end());
					else
						std::sort(k.begin() + (long)b, k.end(), [](long a, long c) { return c < a; });
				}
				break;
			}
			case 4: // sorted with a few swaps
				for (size_t i = 0; i < n; ++i)
					k.push_back(rnd());
				std::sort(k.begin(), k.end());
				if (r.chance(1, 2))
					std::reverse(k.begin(), k.end());
				for (size_t q = r.below(8); q && n; --q)
					std::swap(k[r.below(n)], k[r.below(n)]);
				break;
			case 5: // saw tooth
			{
				long period = 1 + (long)r.below(n + 1), f = (long)r.below(3);
				for (size_t i = 0; i < n; ++i) {
					long x = (long)i % period;
					k.push_back(1 + (f == 0 ? x : f == 1 ? period - x : x / 3));
				}
				break;
			}
			case 6: // sorted, random tail
				for (size_t i = 0; i < n; ++i)
					k.push_back(rnd());
				std::sort(k.begin(), k.begin() + (long)(n - r.below(n + 1)));
				break;
			case 7: // organ pipe
				for (size_t i = 0; i < n; ++i)
					k.push_back(1 + (long)std::min(i, n - i) / (1 + (long)(u % 3)));
				break;
		}
	}
	size_t cut(size_t n, Rng& r)
	{
		switch (r.below(5)) {
			case 0: return n / 2;
			case 1: return std::min(n, (size_t)r.below(6));
			case 2: return n - std::min(n, (size_t)r.below(6));
			default: return r.below(n + 1);
		}
	}
	void gen(Plan& p, Rng& r)
	{
		auto size = [&]() -> long {
			switch (r.below(7)) {
				case 0: return (long)r.below(10);
				case 1: {
					static const long edge[] = { 8, 16, 17, 24, 32, 64, 127, 128, 129, 192, 256, 512, 640, 1024 };
					return edge[r.below(14)] + r.range(-1, 1);
				}
				case 2:
				case 3: return (long)r.below(130);
				case 4:
				case 5: return (long)r.below(500);
				default: return r.chance(1, 4) ? (long)r.below(9000) : (long)r.below(2000);
			}
		};
		static const int w[NOPS] = { 6, 5, 6, 4, 3, 3, 2, 3 };
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += w[i];
		unsigned fden = (unsigned)r.range(1, 4);
		bool faults = !r.chance(1, 3);
		p.tasks.emplace_back();
		long n = r.range(1, 8);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = size();
			o.b = (long)r.below(B_COUNT);
			o.c = (long)(r.next() & 0xffffff);
			if (faults && r.chance(1, fden)) {
				static const int kinds[] = { F_CMP, F_CMP, F_CMP, F_MOVE, F_MOVE, F_COPY, F_ALLOC, F_CTOR, F_CMP, F_ANY };
				o.fk = kinds[r.below(10)];
				unsigned bits = 2;
				while ((1l << bits) < o.a)
					++bits;
				o.fn = (int)r.logu(r.chance(1, 3) ? 2 : o.fk == F_ALLOC || o.fk == F_CTOR ? bits : bits + 2);
			}
			p.tasks.back().push_back(o);
		}
	}
}
