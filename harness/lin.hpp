// Per-key linearizability checker for map-like objects (Wing & Gong with memoisation), used with the
// simulation switched off. State of one key: its value in map A and in map B (ABSENT when not there).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

namespace lin
{
	constexpr long ABSENT = -1;
	constexpr long UNKNOWN = -2;

	enum Kind
	{
		INSERT, // if absent: value := arg, ret 1. else ret 0; the found value (seen) may be replaced by `write`
		ASSIGN, // value := arg, ret = was absent
		VISIT,	// ret = present; if present `seen`, maybe replaced by `write`
		ERASE,	// ret = present (and erased). If keep: the predicate refused, nothing changes, ret 0 but seen
		ERASE_ANY, // becomes absent, nothing observed
		MERGE,	   // B[k] present and A[k] absent => moved. Nothing observed. (dir 1: from A to B)
		MERGE_MOVED, // unused
	};
	struct Ev
	{
		Kind kind;
		int map = 0; // 0 = A, 1 = B
		long arg = 0;
		long ret = UNKNOWN;    // 0/1/UNKNOWN
		long seen = UNKNOWN;   // value observed, UNKNOWN if none
		long write = UNKNOWN;  // value written by the functor, UNKNOWN if none
		bool keep = false;     // ERASE whose predicate said no
		bool optional = false; // may not have happened at all (operation failed half way)
		uint64_t inv = 0, res = ~0ull;
		int task = 0;
	};
	struct St
	{
		long v[2];
	};

	// returns true if legal, updates s
	inline bool apply(const Ev& e, St& s)
	{
		long& v = s.v[e.map];
		switch (e.kind) {
			case INSERT:
				if (v == ABSENT) {
					if (e.ret == 0 || e.seen != UNKNOWN)
						return false;
					v = e.arg;
					return true;
				}
				if (e.ret == 1)
					return false;
				if (e.seen != UNKNOWN && e.seen != v)
					return false;
				if (e.write != UNKNOWN)
					v = e.write;
				return true;
			case ASSIGN:
				if (e.ret != UNKNOWN && e.ret != (v == ABSENT ? 1 : 0))
					return false;
				v = e.arg;
				return true;
			case VISIT:
				if (v == ABSENT)
					return e.ret != 1 && e.seen == UNKNOWN;
				if (e.ret == 0)
					return false;
				if (e.seen != UNKNOWN && e.seen != v)
					return false;
				if (e.write != UNKNOWN)
					v = e.write;
				return true;
			case ERASE:
				if (v == ABSENT)
					return e.ret != 1 && e.seen == UNKNOWN;
				if (e.keep) {
					if (e.ret == 1)
						return false;
					return e.seen == UNKNOWN || e.seen == v;
				}
				if (e.ret == 0)
					return false;
				if (e.seen != UNKNOWN && e.seen != v)
					return false;
				v = ABSENT;
				return true;
			case ERASE_ANY: v = ABSENT; return true;
			case MERGE: {
				long& from = s.v[1 - e.map];
				if (from != ABSENT && v == ABSENT) {
					v = from;
					from = ABSENT;
				}
				return true;
			}
			default: return false;
		}
	}

	struct Checker
	{
		const std::vector<Ev>& ev;
		std::unordered_set<std::string> seen;
		uint64_t nodes = 0;
		bool gave_up = false;

		explicit Checker(const std::vector<Ev>& e)
		  : ev(e)
		{
		}
		bool dfs(std::vector<char>& done, size_t left, St s)
		{
			if (left == 0)
				return true;
			if (++nodes > 400000) {
				gave_up = true;
				return true;
			}
			std::string key(done.begin(), done.end());
			key.append(reinterpret_cast<const char*>(&s), sizeof(s));
			if (!seen.insert(key).second)
				return false;
			// earliest response among the remaining operations
			uint64_t minres = ~0ull;
			for (size_t i = 0; i < ev.size(); ++i)
				if (!done[i] && ev[i].res < minres)
					minres = ev[i].res;
			for (size_t i = 0; i < ev.size(); ++i) {
				if (done[i] || ev[i].inv > minres)
					continue;
				St t = s;
				done[i] = 1;
				if (apply(ev[i], t) && dfs(done, left - 1, t))
					return true;
				if (ev[i].optional && dfs(done, left - 1, s))
					return true;
				done[i] = 0;
				if (gave_up)
					return true;
			}
			return false;
		}
		bool ok(St init)
		{
			std::vector<char> done(ev.size(), 0);
			return dfs(done, ev.size(), init);
		}
	};

	inline std::string show(const Ev& e)
	{
		static const char* k[] = { "insert", "assign", "visit", "erase", "clear", "merge", "?" };
		std::string s = "t" + std::to_string(e.task) + " [" + std::to_string(e.inv) + "," + (e.res == ~0ull ? std::string("-") : std::to_string(e.res)) + "] " + (e.map ? "B." : "A.") + k[e.kind];
		if (e.kind == INSERT || e.kind == ASSIGN)
			s += "(" + std::to_string(e.arg) + ")";
		if (e.ret != UNKNOWN)
			s += " ret " + std::to_string(e.ret);
		if (e.seen != UNKNOWN)
			s += " saw " + std::to_string(e.seen);
		if (e.write != UNKNOWN)
			s += " wrote " + std::to_string(e.write);
		if (e.keep)
			s += " kept";
		if (e.optional)
			s += " (failed)";
		return s;
	}
}
