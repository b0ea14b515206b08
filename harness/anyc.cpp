#include "anyc.hpp"
namespace an
{
	const char* const op_names[NOPS] = { "construct", "copy ctor", "move ctor", "assign copy", "assign move", "emplace", "make_any", "copy assign", "move assign", "swap", "reset", "cast", "conversion", "compare", "compare value", "assign own part", "nest", "relocate", "set" };
	const char* const type_names[NTYPES] = { "int", "double", "const char*", "std::string", "tstring", "Elem", "throwing Elem", "Small", "relocatable Small", "unique_ptr", "Pod", "aligned 64", "aligned 16", "not assignable", "Box", "owner", "tree" };
	std::string str(const MV& m)
	{
		if (m.type < 0)
			return "nothing";
		std::string s = type_names[m.type];
		if (m.type == T_TREE) {
			s += "{";
			for (const MV& x : m.sub)
				s += str(x) + ";";
			return s + "}";
		}
		return s + "(" + (m.k == MOVED ? std::string("moved") : std::to_string(m.k)) + ")";
	}
	const char* cstr(long k)
	{
		static char t[1000][8];
		if (!t[0][0])
			for (int i = 0; i < 1000; ++i)
				snprintf(t[i], 8, "%d", i);
		return t[k < 0 || k > 999 ? 999 : k];
	}
	std::string show_op(const Plan&, const Op& o)
	{
		return std::string(1, char('A' + (o.c >> 8) % NS)) + " " + op_names[o.code] + " " + type_names[o.b % NTYPES] + "(" + std::to_string(o.a % 1000) + ") from " + char('A' + (o.c >> 12) % NS) + " form " + std::to_string(o.c & 255);
	}
	void gen(Plan& p, Rng& r)
	{
		cstr(0);
		p.p["rng"] = (long)(r.next() & 0xffffff);
		static const int w[NOPS] = { 4, 3, 3, 6, 6, 5, 2, 7, 6, 4, 1, 3, 2, 2, 2, 4, 3, 2, 2 };
		bool on[NOPS], ton[NTYPES];
		bool some = r.chance(1, 3), tsome = r.chance(1, 2);
		for (int i = 0; i < NOPS; ++i)
			on[i] = !some || r.chance(1, 3);
		on[ASSIGN] = on[COPYASSIGN] = true;
		int nt = 0;
		for (int i = 0; i < NTYPES; ++i)
			nt += ton[i] = !tsome || r.chance(1, 4);
		if (!nt)
			ton[r.below(NTYPES)] = true;
		int tot = 0;
		for (int i = 0; i < NOPS; ++i)
			tot += on[i] ? w[i] : 0;
		unsigned fden = (unsigned)r.range(1, 6);
		bool faults = !r.chance(1, 6);
		p.tasks.emplace_back();
		long n = r.range(2, 45);
		for (long i = 0; i < n; ++i) {
			Op o;
			int k = (int)r.below((uint64_t)tot);
			for (o.code = 0;; ++o.code) {
				if (!on[o.code])
					continue;
				if (k < w[o.code])
					break;
				k -= w[o.code];
			}
			o.a = (long)r.below(1000);
			if (r.chance(1, 3))
				o.a %= 8;
			do
				o.b = (long)r.below(NTYPES);
			while (!ton[o.b]);
			o.c = (long)r.below(256) | ((long)r.below(NS) << 8) | ((long)r.below(NS) << 12);
			if (faults && r.chance(1, fden)) {
				static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC_P, F_COPY, F_MOVE, F_CTOR, F_CMP, F_ANY, F_ANY };
				o.fk = kinds[r.below(9)];
				o.fn = (int)r.logu(2);
			}
			p.tasks.back().push_back(o);
		}
	}
}
