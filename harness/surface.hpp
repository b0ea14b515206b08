// Every way to walk through a container and to name its positions, against the expected sequence.
#pragma once
#include "common.hpp"
#include <iterator>

namespace h
{
	template<class It>
	decltype(auto) arrow(It& it)
	{
		if constexpr (std::is_pointer_v<It>)
			return it;
		else
			return it.operator->();
	}
	// is(element, i): the element is the one expected at i
	template<class It, class Is>
	void walk_forward(const char* what, It b, It e, size_t n, bool post, Is is)
	{
		size_t k = 0;
		for (It it = b; it != e; ++k) {
			if (k >= n)
				fail("CONTENTS", "%s: a walk meets more than %zu elements", what, n);
			if (!is(*it, k))
				fail("CONTENTS", "%s: another element at %zu of %zu", what, k, n);
			if (post) {
				It old = it++;
				if (!is(*old, k) || old == it)
					fail("CONTENTS", "%s: it++ at %zu of %zu does not give the old position", what, k, n);
			}
			else {
				It& r = ++it;
				if (&r != &it)
					fail("CONTENTS", "%s: ++it does not give the iterator", what);
			}
		}
		if (k != n)
			fail("CONTENTS", "%s: a walk meets %zu of %zu elements", what, k, n);
	}
	template<class It, class Is>
	void walk_backward(const char* what, It b, It e, size_t n, bool post, Is is)
	{
		size_t k = n;
		for (It it = e; it != b;) {
			if (k == 0)
				fail("CONTENTS", "%s: a backward walk meets more than %zu elements", what, n);
			if (post) {
				It old = it--;
				if (old == it || (k == n) != (old == e))
					fail("CONTENTS", "%s: it-- at %zu of %zu does not give the old position", what, k, n);
			}
			else
				--it;
			--k;
			if (!is(*it, k))
				fail("CONTENTS", "%s: a backward walk meets another element at %zu of %zu", what, k, n);
		}
		if (k)
			fail("CONTENTS", "%s: a backward walk misses %zu of %zu elements", what, k, n);
	}

	template<class C, class Is>
	void surface_back(C& x, size_t n, Rng& r, bool post, Is is)
	{
		const C& cx = x;
		switch (r.below(4)) {
			case 0: walk_backward("end()", x.begin(), x.end(), n, post, is); break;
			case 1: walk_backward("end() const", cx.begin(), cx.end(), n, post, is); break;
			case 2: walk_forward("rbegin()", x.rbegin(), x.rend(), n, post, [&](auto&& e, size_t k) { return is(e, n - 1 - k); }); break;
			default: {
				auto rev = [&](auto&& e, size_t k) { return is(e, n - 1 - k); };
				if (post)
					walk_forward("rbegin() const", cx.rbegin(), cx.rend(), n, post, rev);
				else
					walk_forward("crbegin()", cx.crbegin(), cx.crend(), n, post, rev);
				break;
			}
		}
	}
	// one of the walks, chosen at random
	template<bool Bidir = true, class C, class Is>
	void surface_walk(C& x, size_t n, Rng& r, Is is)
	{
		const C& cx = x;
		bool post = r.chance(1, 2);
		using CI = typename C::const_iterator;
		switch (r.below(8)) {
			case 0: walk_forward("begin()", x.begin(), x.end(), n, post, is); break;
			case 1: walk_forward("begin() const", cx.begin(), cx.end(), n, post, is); break;
			case 2: walk_forward("cbegin()", x.cbegin(), cx.cend(), n, post, is); break;
			case 3: walk_forward("converted begin()", CI(x.begin()), CI(x.end()), n, post, is); break;
			default:
				if constexpr (Bidir)
					surface_back(x, n, r, post, is);
				else
					walk_forward("cbegin()", x.cbegin(), cx.cend(), n, !post, is);
		}
		if (n) {
			auto it = x.begin();
			auto ci = cx.begin();
			if (!is(*arrow(it), 0) || !is(*arrow(ci), 0))
				fail("CONTENTS", "operator-> of begin() reaches another element than the first");
		}
	}

	template<class It, class = void>
	struct full_ra : std::false_type
	{
	};
	template<class It>
	struct full_ra<It, decltype((void)(1L + std::declval<It&>()), (void)(std::declval<It&>()[1L]))> : std::true_type
	{
	};
	template<class It>
	It plus(It it, long d, bool swapped)
	{
		if constexpr (full_ra<It>::value)
			if (swapped)
				return d + it;
		return it + d;
	}

	// positions of random access iterators; `limit` of them
	template<class C, class Is>
	void surface_ra(C& x, size_t n, Rng& r, Is is, int limit)
	{
		const C& cx = x;
		using I = typename C::iterator;
		using CI = typename C::const_iterator;
		for (int q = 0; q < limit; ++q) {
			long a = r.range(0, (long)n), b = r.range(0, (long)n);
			if (r.chance(1, 3))
				b = std::min((long)n, a + (long)r.below(3));
			I ia = plus(x.begin(), a, r.chance(1, 2));
			CI cb = plus(cx.begin(), b, r.chance(1, 2));
			if (r.chance(1, 4))
				cb = cx.end() - ((long)n - b);
			if (r.chance(1, 4))
				ia = x.end() - ((long)n - a);
			CI ca = ia;
			I ib = x.begin();
			ib += b;
			auto rel = [&](auto i, auto j) {
				if (j - i != b - a || (i < j) != (a < b) || (i > j) != (a > b) || (i <= j) != (a <= b) || (i >= j) != (a >= b) || (i == j) != (a == b) || (i != j) != (a != b))
					fail("CONTENTS", "iterators at %ld and %ld of %zu: distance %ld, <%d >%d <=%d >=%d ==%d !=%d", a, b, n, (long)(j - i), (int)(i < j), (int)(i > j), (int)(i <= j), (int)(i >= j), (int)(i == j), (int)(i != j));
			};
			rel(ia, ib);
			rel(ca, cb);
			rel(ia, cb);
			rel(ca, ib);
			auto to = [&](auto i) {
				i += b - a;
				if (!(i == ib) || (b < (long)n && !is(*i, (size_t)b)))
					fail("CONTENTS", "+= %ld from %ld of %zu reaches another position", b - a, a, n);
				if (i != x.end() && !is(*arrow(i), (size_t)b))
					fail("CONTENTS", "operator-> at %ld of %zu reaches another element", b, n);
				i -= b - a;
				if (!(i == ia) || (a < (long)n && !is(*i, (size_t)a)))
					fail("CONTENTS", "-= %ld from %ld of %zu reaches another position", b - a, b, n);
				if constexpr (full_ra<decltype(i)>::value)
					if (b < (long)n && !is(i[b - a], (size_t)b))
						fail("CONTENTS", "[%ld] of an iterator at %ld of %zu reaches another element", b - a, a, n);
				if (!(i + (b - a) == ib) || !(i - (a - b) == ib))
					fail("CONTENTS", "+ or - %ld from %ld of %zu reaches another position", b - a, a, n);
			};
			to(ia);
			to(ca);
		}
	}
}
