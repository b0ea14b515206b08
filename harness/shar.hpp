// One shared instance that several tasks only read, while each of them also works on instances of its own:
// no hidden state may be shared. Races are found by happens-before (nothing orders the tasks but their spawn),
// on the heap and on static objects; results are compared with a model.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <vector>

namespace sh
{
	using namespace h;

	enum
	{
		// reads of the shared instance
		R_FIND,
		R_BOUNDS,
		R_WALK,
		R_PARTIAL,
		R_COPY,
		R_EQUAL,
		R_MISC,
		R_ASSIGN, // the task's own instance becomes a copy of the shared one
		// work on the task's own instance
		W_ADD,
		W_ADD_MANY,
		W_DEL,
		W_DEL_SOME,
		W_CLEAR,
		W_MOVE,
		W_SWAP,
		W_FRESH,
		W_RESERVE,
		W_CHECK,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r);

	// Ad: the adapter of one type.
	//   type V, Model
	//   void add(V&, Model&, long k, bool shared)    insert / append the value of k
	//   void add_many(V&, Model&, long k, long n)
	//   void del(V&, Model&, long k), del_some(V&, Model&, long k), reserve(V&, Model&, long k), wipe(V&, Model&)
	//   void find / bounds / walk / partial / misc(const V&, const Model&, long k)
	//   bool same(const V&, const V&)
	template<class Ad>
	struct Runner
	{
		using V = typename Ad::V;
		using Model = typename Ad::Model;
		V* shared = nullptr;
		Model sm;
		struct Own
		{
			V *v = nullptr, *w = nullptr;
			Model mv, mw;
		};
		std::vector<Own> own;
		const Plan* plan = nullptr;

		static void reset(V*& p, Model& m)
		{
			delete p;
			p = nullptr;
			p = new V(); // may fail
			NoSim ns;
			m = Model();
		}
		void one(Own& o, const Op& op)
		{
			const V& c = *shared;
			long k = op.a;
			switch (op.code) {
				case R_FIND: Ad::find(c, sm, k); break;
				case R_BOUNDS: Ad::bounds(c, sm, k); break;
				case R_WALK: Ad::walk(c, sm); break;
				case R_PARTIAL: Ad::partial(c, sm, k, op.b); break;
				case R_COPY: {
					V* t = new V(c);
					struct D
					{
						V* t;
						~D() { delete t; }
					} d{ t };
					Ad::walk(*t, sm);
					break;
				}
				case R_EQUAL: {
					bool e;
					{
						NoSim ns;
						e = sm == o.mv;
					}
					if (Ad::same(c, *o.v) != e)
						fail("RESULT", "comparing a shared and a private instance gives %d", !e);
					break;
				}
				case R_MISC: Ad::misc(c, sm, k); break;
				case R_ASSIGN: {
					*o.v = c;
					NoSim ns;
					o.mv = sm;
					break;
				}
				case W_ADD: Ad::add(*o.v, o.mv, k); break;
				case W_ADD_MANY: Ad::add_many(*o.v, o.mv, k, op.b); break;
				case W_DEL: Ad::del(*o.v, o.mv, k); break;
				case W_DEL_SOME: Ad::del_some(*o.v, o.mv, k); break;
				case W_CLEAR: {
					Ad::wipe(*o.v);
					NoSim ns;
					o.mv = Model();
					break;
				}
				case W_MOVE: {
					*o.w = std::move(*o.v);
					{
						NoSim ns;
						o.mw = o.mv;
					}
					reset(o.v, o.mv);
					break;
				}
				case W_SWAP: {
					using std::swap;
					swap(*o.v, *o.w);
					NoSim ns;
					std::swap(o.mv, o.mw);
					break;
				}
				case W_FRESH: reset(o.v, o.mv); break;
				case W_RESERVE: Ad::reserve(*o.v, o.mv, k); break;
				case W_CHECK:
					Ad::walk(*o.v, o.mv);
					Ad::find(*o.v, o.mv, k);
					break;
			}
		}
		void task(const std::vector<Op>& ops, Own& o)
		{
			for (const Op& op : ops) {
				logf("%s k=%ld n=%ld", op_names[op.code], op.a, op.b);
				begin_op(op);
				bool bad = false;
				try {
					one(o, op);
				}
				catch (const std::bad_alloc&) {
					bad = true;
				}
				int f = end_op();
				if (bad && !f)
					fail("EXCEPTION", "%s reports a lack of memory that did not happen", op_names[op.code]);
				if (bad) {
					// what a failure leaves is not the matter here
					if (!o.v)
						o.v = new V();
					Ad::wipe(*o.v);
					Ad::wipe(*o.w);
					NoSim ns;
					o.mv = Model();
					o.mw = Model();
				}
			}
			Ad::walk(*o.v, o.mv);
			Ad::walk(*o.w, o.mw);
			delete o.v;
			delete o.w;
			NoSim ns;
			o = Own();
		}
		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			watch_static();
			plan = &p;
			mark_nontrivial();
			// tasks[0]: how the shared instance came to be
			Own bo;
			bo.v = new V();
			bo.w = new V();
			shared = new V();
			for (const Op& op : p.tasks[0])
				one(bo, op);
			{
				NoSim ns;
				sm = bo.mv;
				own.resize(p.tasks.size());
			}
			delete shared;
			shared = bo.v;
			delete bo.w;
			for (size_t t = 1; t < p.tasks.size(); ++t)
				spawn([this, t] {
					Own& o = own[t];
					o.v = new V();
					o.w = new V();
					task(plan->tasks[t], o);
				});
			join_all();
			Ad::walk(*shared, sm);
			for (long k = 0; k < 40; ++k)
				Ad::find(*shared, sm, k);
			delete shared;
			{
				NoSim ns;
				std::vector<Own>().swap(own);
				sm = Model();
				bo = Own();
			}
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks + Ad::kept()) {
				NoSim ns;
				char b[1500];
				describe_leaks(b, sizeof(b), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), b);
			}
		}
	};

	template<class Ad>
	void run_cfg(const Plan& p)
	{
		Runner<Ad>* r;
		{
			NoSim ns;
			r = new Runner<Ad>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
