// Replaces libstdc++'s serial PSTL backend (same include guard): std::execution::par algorithms run their
// iterations on simulated tasks, interleaved by the simulator. Force-included before every other header.
#define _PSTL_PARALLEL_BACKEND_SERIAL_H
#pragma once
#include "../sim/sim.hpp"
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <memory>
#include <numeric>
#include <utility>
#include <vector>

namespace sim
{
	inline bool par_available(long n) { return running() && n >= 2 && free_tasks() >= 2; }
}
namespace __pstl
{
	namespace __serial_backend
	{
		template<typename T>
		class __buffer
		{
			std::allocator<T> a;
			T* p;
			const std::size_t n;
			__buffer(const __buffer&) = delete;
			void operator=(const __buffer&) = delete;

		public:
			__buffer(std::size_t c)
			  : p(a.allocate(c))
			  , n(c)
			{
			}
			operator bool() const { return p != nullptr; }
			T* get() const { return p; }
			~__buffer() { a.deallocate(p, n); }
		};
		inline void __cancel_execution() {}

		// A handful of workers; each takes the next chunk that nobody took. Exceptions end the program, as in std.
		template<class P, class I, class F>
		void __parallel_for(P&&, I first, I last, F f)
		{
			long n = (long)(last - first);
			if (!sim::par_available(n)) {
				f(first, last);
				return;
			}
			long next = 0;
			int w = std::min<long>({ n, 2, (long)sim::free_tasks() - 1 });
			if (w < 1)
				w = 1;
			long chunk = n <= 8 ? 1 : 1 + n / 8;
			auto body = [&next, n, chunk, first, &f]() noexcept {
				for (;;) {
					long b, e;
					{
						sim::NoSim ns;
						b = next;
						next = e = std::min(n, b + chunk);
					}
					if (b >= n)
						return;
					f(first + b, first + e);
				}
			};
			std::vector<int>* ids;
			{
				sim::NoSim ns;
				ids = new std::vector<int>;
				for (int i = 0; i < w; ++i)
					ids->push_back(sim::spawn(body, "par"));
			}
			body();
			for (int i : *ids)
				sim::join(i);
			sim::NoSim ns;
			delete ids;
		}
		template<class P, class V, class I, typename B, typename R>
		V __parallel_reduce(P&&, I first, I last, const V& id, const B& body, const R&)
		{
			return first == last ? id : body(first, last, id);
		}
		template<class P, class I, class U, class T, class B, class R>
		T __parallel_transform_reduce(P&&, I first, I last, U, T init, B, R reduce)
		{
			return reduce(first, last, init);
		}
		template<class P, typename I, typename T, typename R, typename C, typename S, typename A>
		void __parallel_strict_scan(P&&, I n, T initial, R reduce, C combine, S scan, A apex)
		{
			T sum = initial;
			if (n)
				sum = combine(sum, reduce(I(0), n));
			apex(sum);
			if (n)
				scan(I(0), n, initial);
		}
		template<class P, class I, class U, class T, class B, class R, class S>
		T __parallel_transform_scan(P&&, I n, U, T init, B, R, S scan)
		{
			return scan(I(0), n, init);
		}
		template<class P, typename I, typename C, typename L>
		void __parallel_stable_sort(P&&, I first, I last, C comp, L leaf, std::size_t = 0)
		{
			leaf(first, last, comp);
		}
		template<class P, typename I1, typename I2, typename O, typename C, typename L>
		void __parallel_merge(P&&, I1 f1, I1 l1, I2 f2, I2 l2, O o, C comp, L leaf)
		{
			leaf(f1, l1, f2, l2, o, comp);
		}
		template<class P, typename F1, typename F2>
		void __parallel_invoke(P&&, F1&& a, F2&& b)
		{
			std::forward<F1>(a)();
			std::forward<F2>(b)();
		}
	}
}
