#include "cmap.hpp"

namespace cm
{
	int g_hash_mode = 0;
	int g_shard_mode = 1;
	const char* const op_names[NOPS] = { "emplace", "insert(const&)", "insert(&&)", "try_emplace", "insert_or_assign", "emplace_or_visit", "insert_or_visit", "try_emplace_or_visit", "emplace_or_cvisit", "insert_or_cvisit", "try_emplace_or_cvisit", "visit", "visit(const)", "cvisit", "contains", "count", "erase", "erase_if(key)", "reserve", "rehash", "max_load_factor", "size", "load_factor", "visit_all", "cvisit_all", "visit_all(const)", "visit_all(stop)", "erase_if", "seq::erase_if", "clear", "copy", "copy_assign", "self ==", "==", "merge", "merge(&&)", "self merge", "insert(range)", "swap", "visit_all(par)", "cvisit_all(par)", "erase_if(par)", "merge(par)", "visit_all(par, stop)" };

	std::string show_op(const Plan&, const Op& o)
	{
		std::string s = (o.c >> 8 & 1) ? "B." : "A.";
		s += op_names[o.code];
		if (o.code < RESERVE || o.code == INSERT_RANGE)
			s += "(" + std::to_string(o.a) + ")";
		if (o.b)
			s += " n=" + std::to_string(o.b);
		if (o.c & 0xff)
			s += " v" + std::to_string(o.c & 0xff);
		return s;
	}

	void History::check(const char* what)
	{
		NoSim ns;
		for (auto& kv : ev) {
			lin::St s;
			for (int t = 0; t < 2; ++t) {
				auto it = init[t].find(kv.first);
				s.v[t] = it == init[t].end() ? lin::ABSENT : it->second;
			}
			lin::Checker c(kv.second);
			if (!c.ok(s)) {
				std::string m;
				std::vector<lin::Ev> v = kv.second;
				std::sort(v.begin(), v.end(), [](const lin::Ev& a, const lin::Ev& b) { return a.inv < b.inv; });
				for (auto& e : v) {
					if (m.size() > 3000)
						break;
					m += lin::show(e) + "; ";
				}
				fail("NOT-LINEARIZABLE", "%s of key %ld (initially A:%ld B:%ld, -1 = absent) has no legal order: %s", what, kv.first, s.v[0], s.v[1], m.c_str());
			}
			if (c.gave_up)
				probe("lin_gave_up");
		}
	}

	struct W
	{
		int code, w;
	};
	static int pick(Rng& r, const std::vector<W>& v)
	{
		int t = 0;
		for (auto& x : v)
			t += x.w;
		int k = (int)r.below((uint64_t)t);
		for (auto& x : v) {
			if (k < x.w)
				return x.code;
			k -= x.w;
		}
		return v.back().code;
	}

	void gen(Plan& p, Rng& r, int profile, GenOpt g)
	{
		bool par = profile == P_PAR;
		bool seqf = profile == P_SEQF;
		static const int hm[] = { 0, 0, 1, 1, 2, 3, 4 };
		p.p["cfg_hash"] = hm[r.below(7)];
		p.p["cfg_shard"] = g.sharded ? (par ? (r.chance(1, 2) ? 0 : 2) : (long)r.below(3)) : 1;
		int ntasks = !g.concurrent || seqf ? 1 : par ? (int)r.range(1, 2) : (int)r.range(2, 4);
		long hot = r.range(1, 4);
		p.p["hot"] = hot;
		p.p["hotmask"] = (long)r.below(256);
		// distance to the next growth matters more than the size itself
		static const long thr[] = { 0, 0, 0, 1, 11, 15, 16, 17, 28, 30, 31, 32, 46, 60 };
		long pre = thr[r.below(14)] - (long)r.below(3);
		if (r.chance(1, 6))
			pre = r.range(0, g.sharded ? 100 : 70);
		if (pre < 0)
			pre = 0;
		p.p["prefill"] = pre;
		p.p["prefillB"] = r.chance(1, 2) ? 0 : r.range(0, 40);
		p.p["stepB"] = r.range(1, 3);
		p.p["final_clear"] = r.chance(1, 4);
		bool small_ab = profile == P_BULK || profile == P_ALL || par || seqf;
		bool swap = profile == P_ALL && r.chance(1, 6) && g.concurrent;
		if (swap)
			p.p["cfg_swap"] = 1;

		std::vector<W> w;
		auto add = [&](std::initializer_list<W> l) { w.insert(w.end(), l.begin(), l.end()); };
		int x_ins = 6, x_vis = 4, x_bulk = 1, x_rs = 1, x_cl = 1;
		switch (profile) {
			case P_KEYS: x_ins = 10; x_vis = 6; x_bulk = 0; x_rs = 2; x_cl = 0; break;
			case P_VISITS: x_ins = 5; x_vis = 12; x_bulk = 2; x_rs = 1; x_cl = 0; break;
			case P_BULK: x_ins = 4; x_vis = 2; x_bulk = 5; x_rs = 1; x_cl = 1; break;
			case P_LIVE: x_ins = 8; x_vis = 2; x_bulk = 1; x_rs = 3; x_cl = 3; break;
			default: break;
		}
		add({ { EMPLACE, x_ins }, { INSERT_C, x_ins / 2 }, { INSERT_M, x_ins / 2 }, { TRY_EMPLACE, x_ins / 2 }, { EMPLACE_V, x_ins / 2 }, { INSERT_V, x_ins / 2 }, { TRY_V, x_ins / 2 }, { EMPLACE_CV, x_ins / 3 }, { INSERT_CV, x_ins / 3 }, { TRY_CV, x_ins / 3 } });
		if (!g.is_set)
			add({ { ASSIGN, x_ins } });
		add({ { VISIT_MUT, x_vis }, { VISIT_CONST, x_vis / 2 }, { CVISIT, x_vis / 2 }, { CONTAINS, x_vis / 2 }, { COUNT, x_vis / 3 } });
		add({ { ERASE, x_ins }, { ERASE_IF_KEY, x_ins / 2 } });
		add({ { RESERVE, x_rs }, { REHASH, x_rs }, { MAX_LOAD, x_rs / 2 }, { SIZE, 1 }, { LOAD, x_rs / 2 } });
		if (x_bulk)
			add({ { VISIT_ALL, x_bulk }, { CVISIT_ALL, x_bulk }, { VISIT_ALL_CONST, x_bulk }, { VISIT_ALL_STOP, x_bulk }, { ERASE_IF, x_bulk }, { ERASE_IF_FREE, (x_bulk + 1) / 2 }, { COPY, x_bulk }, { COPY_ASSIGN, (x_bulk + 1) / 2 }, { EQ_SELF, (x_bulk + 1) / 2 }, { EQ_AB, (x_bulk + 1) / 2 }, { INSERT_RANGE, x_bulk } });
		if (x_bulk > 1 || small_ab)
			add({ { MERGE, x_bulk }, { MERGE_RV, (x_bulk + 1) / 2 }, { SELF_MERGE, 1 } });
		if (x_cl)
			add({ { CLEAR, x_cl } });
		if (swap)
			add({ { SWAP, 6 } });
		if (par)
			add({ { PAR_VISIT, 8 }, { PAR_CVISIT, 8 }, { PAR_ERASE_IF, 8 }, { PAR_MERGE, 8 }, { PAR_VISIT_STOP, 6 } });

		bool faults = profile == P_FAULTS || profile == P_SEQF || (profile == P_ALL && r.chance(1, 2));
		int fden = (int)r.range(2, 8);
		long growth = 2000;
		for (int t = 0; t < ntasks; ++t) {
			p.tasks.emplace_back();
			long n = seqf ? r.range(4, 30) : r.range(2, 9);
			if (!g.concurrent)
				n = r.range(4, 30);
			for (long i = 0; i < n; ++i) {
				Op o;
				o.code = pick(r, w);
				if (o.code < RESERVE || o.code == INSERT_RANGE) {
					bool ins = o.code <= TRY_CV || o.code == INSERT_RANGE;
					int z = (int)r.below(10);
					if (z < 6)
						o.a = (long)r.below((uint64_t)hot);
					else if (z < 8 || !ins)
						o.a = 1000 + (long)r.below((uint64_t)(pre + 4));
					else
						o.a = growth++;
				}
				if (o.code == INSERT_RANGE) {
					o.a = r.chance(1, 2) ? growth : 1000 + (long)r.below((uint64_t)pre + 1);
					o.b = r.range(1, 24);
					if (o.a == growth)
						growth += o.b;
				}
				else if (o.code == RESERVE || o.code == REHASH)
					o.b = r.chance(1, 3) ? 0 : (long)r.logu(9);
				else if (o.code == MAX_LOAD)
					o.b = r.range(1, 9);
				else if (o.code == VISIT_ALL_STOP || o.code == PAR_VISIT_STOP)
					o.b = (long)r.below(6);
				else
					o.b = (long)r.below(3);
				o.c = (long)r.below(8);
				bool useB = small_ab || profile == P_LIVE ? r.chance(1, 4) : false;
				if (useB)
					o.c |= 256;
				if (faults && !par) {
					static const int kinds[] = { F_ALLOC, F_ALLOC, F_ALLOC, F_ALLOC_P, F_ALLOC_P, F_COPY, F_CTOR, F_CMP, F_FUNC, F_ANY, F_MOVE };
					int kind_n = g.throwing ? 11 : 10;
					if (r.chance(1, (unsigned)fden)) {
						o.fk = kinds[r.below((uint64_t)kind_n)];
						o.fn = (int)r.logu(r.chance(1, 2) ? 2 : 6);
					}
				}
				p.tasks.back().push_back(o);
			}
		}
	}
}
