#include "assoc.hpp"
namespace as
{
	int g_shape = 0;
	const char* const op_names[NOPS] = { "insert(const&)", "insert(&&)", "emplace", "insert(hint,const&)", "insert(hint,&&)", "try_emplace", "insert_or_assign", "operator[]", "erase(key)", "erase(iterator)", "erase(range)", "insert(range)", "insert(input range)", "insert(sorted range)", "assign(range)", "assign(input range)", "ctor(range)", "ctor(input range)", "erase_if", "merge", "clear", "copy ctor", "copy assign", "move ctor", "move assign", "swap", "reserve", "rehash", "shrink_to_fit", "sort", "push_back", "push_front", "extract/replace", "sequence().push_back/rehash", "at(missing)", "operator==" };
	std::string show_op(const Plan&, const Op& o)
	{
		return std::string(o.c & 1 ? "B." : "A.") + op_names[o.code] + " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b) + " c=" + std::to_string(o.c >> 1);
	}
	void gen(Plan& p, Rng& r, GenOpt g)
	{
		p.p["rng"] = (long)(r.next() & 0xffffff);
		auto size = [&](long big) -> long {
			switch (r.below(6)) {
				case 0: return 0;
				case 1: return (long)r.below(4);
				case 2:
				case 3: return (long)r.below(20);
				case 4: return (long)r.below((uint64_t)big + 1);
				default: {
					static const long edge[] = { 8, 15, 16, 32, 64, 128, 256 };
					long e = edge[r.below(7)] + r.range(-1, 2);
					return std::min(e, big);
				}
			}
		};
		static const long ks[] = { 6, 12, 40, 150, 400, 3000 };
		p.p["keys"] = ks[r.below(r.chance(1, 2) ? 3 : 6)];
		p.p["preA"] = size(g.big);
		p.p["preB"] = r.chance(1, 2) ? 0 : size(g.big / 2);
		p.p["seqkeys"] = r.chance(1, 3);
		p.p["dirA"] = r.chance(1, 2);
		p.p["dirB"] = r.chance(3, 4) ? p.p["dirA"] : 1 - p.p["dirA"];
		p.p["hashA"] = r.chance(1, 2) ? 0 : (long)r.below(6);
		p.p["hashB"] = r.chance(1, 2) ? p.p["hashA"] : (long)r.below(6);
		if (g.fam == ORDERED && p.p["hashA"] >= 4 && r.chance(2, 3)) {
			// long probe chains
			p.p["keys"] = ks[r.range(3, 5)];
			p.p["preA"] = r.range(100, 200);
			p.p["seqkeys"] = 1;
		}
		bool big = false;
		if (g.fam == RADIX || g.fam == RADIX_HASH) {
			p.p["shape"] = r.chance(1, 3) ? 0 : (long)r.below(5);
			if (g.fam == RADIX_HASH && r.chance(1, 2))
				p.p["hashA"] = p.p["hashB"] = (long)r.below(2);
			p.p["fair"] = 60000000;
			p.p["ticks"] = 2000000000;
			if (p.p["shape"] == 1)
				p.p["keys"] = std::min(p.p["keys"], 400l);
			big = r.chance(1, 4);
			if (big) {
				// enough elements for several levels of directories
				p.p["keys"] = 3000;
				p.p["preA"] = r.range(200, 3000);
				p.p["preB"] = r.chance(1, 2) ? 0 : r.range(1, 400);
				p.p["seqkeys"] = r.chance(1, 2);
				if (p.p["shape"] == 1 || p.p["hashA"] >= 4 || p.p["hashB"] >= 4)
					p.p["preA"] = r.range(60, 400), p.p["keys"] = 500;
			}
		}
		p.p["final_clear"] = r.chance(1, 2);
		static const int w0[NOPS] = { 6, 5, 5, 3, 3, 4, 4, 3, 8, 6, 3, 4, 4, 3, 2, 2, 1, 1, 2, 2, 1, 2, 2, 1, 2, 2, 1, 1, 1, 1, 4, 4, 1, 2, 0, 1 };
		int w[NOPS];
		for (int i = 0; i < NOPS; ++i)
			w[i] = w0[i] + (big && (i == ERASE_RANGE || i == ERASE_IF || i == ERASE_KEY) ? 6 : 0);
		auto drop = [&](std::initializer_list<int> l) {
			for (int i : l)
				w[i] = 0;
		};
		if (!g.map || g.multi)
			drop({ TRY, ASSIGN_KV, INDEX });
		if (g.fam != FLAT)
			drop({ INS_SORTED, ASG_RA, ASG_IN, MERGE, EXTRACT });
		if (g.fam != ORDERED)
			drop({ SORT, PUSHB, PUSHF, SEQ_DIRECT });
		if (g.fam == FLAT)
			drop({ RESERVE, REHASH, SHRINK });
		if (g.fam == RADIX)
			drop({ RESERVE, REHASH });
		if (g.fam == RADIX && g.map)
			drop({ SHRINK });
		bool on[NOPS];
		bool some = r.chance(1, 3);
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 4);
		on[INS] = on[ERASE_KEY] = true;
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(1, 8);
		bool faults = !r.chance(1, 8);
		p.tasks.emplace_back();
		long n = big ? r.range(2, 12) : r.chance(1, 6) ? r.range(40, 250) : r.range(2, 40);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(r.chance(1, 2) ? 40 : 6000);
			switch (o.code) {
				case INS_RA:
				case INS_IN:
				case INS_SORTED:
				case ASG_RA:
				case ASG_IN:
				case CTOR_RA:
				case CTOR_IN:
				case SEQ_DIRECT: o.b = size(g.big / 2); break;
				case ERASE_RANGE: o.b = big && r.chance(1, 2) ? r.range(1, 3000) : size(40); break;
				case RESERVE:
				case REHASH: o.b = size(big ? 20000 : 200); break;
				default: o.b = (long)r.below(1000);
			}
			o.c = (r.chance(1, 4) ? 1 : 0) | (r.chance(1, 2) ? 2 : 0) | (r.chance(1, 2) ? 4 : 0) | (r.chance(1, 3) ? 8 : 0) | (r.chance(1, 4) ? 16 : 0);
			if (faults && r.chance(1, fden)) {
				int kinds[20], q = 0;
				for (int i = 0; i < 3; ++i)
					kinds[q++] = F_ALLOC;
				kinds[q++] = F_ALLOC_P;
				kinds[q++] = F_COPY;
				kinds[q++] = F_COPY;
				kinds[q++] = F_CTOR;
				kinds[q++] = F_FUNC;
				kinds[q++] = F_ANY;
				if (g.fam == FLAT || g.fam == ORDERED) {
					kinds[q++] = F_CMP;
					kinds[q++] = F_CMP;
				}
				if (g.fam == ORDERED) {
					kinds[q++] = F_HASH;
					kinds[q++] = F_HASH;
				}
				if (g.throwing) {
					kinds[q++] = F_MOVE;
					kinds[q++] = F_MOVE;
				}
				o.fk = kinds[r.below((uint64_t)q)];
				o.fn = (int)r.logu(r.chance(1, 2) ? 2 : big ? 10 : 7);
			}
			p.tasks.back().push_back(o);
		}
	}
}
