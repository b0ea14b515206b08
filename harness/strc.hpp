// seq::tiny_string against std::basic_string, with failing allocations and iterators, arguments taken from the string itself, and failing streams.
#pragma once
#include "common.hpp"
#include <seq/tiny_string.hpp>
#include <algorithm>
#include <istream>
#include <list>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>

namespace st
{
	using namespace h;

	enum
	{
		ASSIGN,
		APPEND,
		PUSH,
		INSERT,
		ERASE,
		POP,
		REPLACE,
		REPLACE_ALL,
		RESIZE,
		RESIZE_FRONT,
		RESERVE,
		SHRINK,
		CLEAR,
		CTOR,
		COPYCTOR,
		MOVECTOR,
		COPYASSIGN,
		MOVEASSIGN,
		SWAP,
		SELFASSIGN,
		SET,
		LOOKUP,
		CONCAT,
		READ,
		WRITE,
		CROSS,
		NOPS
	};
	extern const char* const op_names[NOPS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r);

	// allocators of different ids cannot free each other's memory
	template<class T, bool Propagate>
	struct IdAlloc
	{
		using value_type = T;
		using propagate_on_container_copy_assignment = std::integral_constant<bool, Propagate>;
		using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>;
		using propagate_on_container_swap = std::integral_constant<bool, Propagate>;
		using is_always_equal = std::false_type;
		int id;
		IdAlloc(int i = 0) noexcept
		  : id(i)
		{
		}
		template<class U>
		IdAlloc(const IdAlloc<U, Propagate>& o) noexcept
		  : id(o.id)
		{
		}
		template<class U>
		struct rebind
		{
			using other = IdAlloc<U, Propagate>;
		};
		T* allocate(size_t n)
		{
			char* p = static_cast<char*>(::operator new(n * sizeof(T) + 16));
			*reinterpret_cast<int*>(p) = id;
			return reinterpret_cast<T*>(p + 16);
		}
		void deallocate(T* q, size_t n) noexcept
		{
			char* p = reinterpret_cast<char*>(q) - 16;
			if (*reinterpret_cast<int*>(p) != id)
				fail("ALLOCATOR", "memory of allocator %d is given back to allocator %d", *reinterpret_cast<int*>(p), id);
			::operator delete(p, n * sizeof(T) + 16);
		}
		template<class U>
		bool operator==(const IdAlloc<U, Propagate>& o) const noexcept
		{
			return id == o.id;
		}
		template<class U>
		bool operator!=(const IdAlloc<U, Propagate>& o) const noexcept
		{
			return id != o.id;
		}
	};

	// iterators of every category that may throw when read or moved
	template<class T, class Tag>
	struct It
	{
		using iterator_category = Tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		reference operator*() const
		{
			maybe_throw(F_FUNC);
			return *p;
		}
		It& operator++()
		{
			maybe_throw(F_FUNC);
			++p;
			return *this;
		}
		It operator++(int)
		{
			It t = *this;
			++*this;
			return t;
		}
		It& operator--()
		{
			--p;
			return *this;
		}
		It& operator+=(std::ptrdiff_t n)
		{
			p += n;
			return *this;
		}
		It operator+(std::ptrdiff_t n) const { return It{ p + n }; }
		It operator-(std::ptrdiff_t n) const { return It{ p - n }; }
		std::ptrdiff_t operator-(const It& o) const { return p - o.p; }
		reference operator[](std::ptrdiff_t n) const { return p[n]; }
		bool operator==(const It& o) const { return p == o.p; }
		bool operator!=(const It& o) const { return p != o.p; }
		bool operator<(const It& o) const { return p < o.p; }
	};

	// a source of characters that delivers them in pieces, ends early or throws
	template<class Ch>
	struct InBuf : std::basic_streambuf<Ch>
	{
		using Tr = std::char_traits<Ch>;
		Ch* d;
		size_t n, at = 0, piece;
		bool dead = false, thrown = false;
		InBuf(Ch* p, size_t k, size_t pc)
		  : d(p)
		  , n(k)
		  , piece(pc)
		{
		}
		typename Tr::int_type underflow() override
		{
			if (dead)
				return Tr::eof();
			if (fault_point(F_IO_ERR)) {
				thrown = true;
				throw Injected{ F_IO_ERR };
			}
			if (fault_point(F_IO_EOF)) {
				dead = true;
				return Tr::eof();
			}
			if (at == n)
				return Tr::eof();
			size_t k = std::min(piece, n - at);
			this->setg(d + at, d + at, d + at + k);
			at += k;
			return Tr::to_int_type(*this->gptr());
		}
		size_t consumed() const { return at - (size_t)(this->egptr() - this->gptr()); }
	};
	// a sink that accepts only a part of what it is given, refuses or throws
	template<class Ch>
	struct OutBuf : std::basic_streambuf<Ch>
	{
		using Tr = std::char_traits<Ch>;
		std::basic_string<Ch>* out;
		bool refused = false, thrown = false;
		OutBuf(std::basic_string<Ch>* o)
		  : out(o)
		{
		}
		typename Tr::int_type overflow(typename Tr::int_type c) override
		{
			if (refused)
				return Tr::eof();
			if (fault_point(F_IO_ERR)) {
				refused = thrown = true;
				throw Injected{ F_IO_ERR };
			}
			if (fault_point(F_IO_SHORT)) {
				refused = true;
				return Tr::eof();
			}
			NoSim ns;
			out->push_back(Tr::to_char_type(c));
			return c;
		}
		std::streamsize xsputn(const Ch* s, std::streamsize n) override
		{
			if (refused || n == 0)
				return 0;
			if (fault_point(F_IO_ERR)) {
				refused = thrown = true;
				throw Injected{ F_IO_ERR };
			}
			if (fault_point(F_IO_SHORT)) {
				refused = true;
				NoSim ns;
				out->append(s, (size_t)n / 2);
				return n / 2;
			}
			NoSim ns;
			out->append(s, (size_t)n);
			return n;
		}
	};

	template<class Cfg>
	struct Runner
	{
		using V = typename Cfg::V;
		using Ch = typename V::value_type;
		using A = typename V::allocator_type;
		using M = std::basic_string<Ch>;
		using SV = std::basic_string_view<Ch>;
		using View = seq::basic_tstring_view<Ch>;
		using Wide = seq::tiny_string<Ch, std::char_traits<Ch>, std::allocator<Ch>, (sizeof(Ch) == 1 ? 60 : 20)>;
		static constexpr size_t npos = (size_t)-1;
		V* v[2] = { nullptr, nullptr };
		int aid[2] = { 0, 0 };
		M m[2];
		Rng r{ 1 };
		const Plan* plan = nullptr;

		static A alloc(int id)
		{
			if constexpr (Cfg::ids)
				return A(id);
			else
				return A();
		}
		static void check_alloc(const V& x, int id)
		{
			if constexpr (Cfg::ids)
				if (x.get_allocator().id != id)
					fail("ALLOCATOR", "the string has allocator %d, should have %d", x.get_allocator().id, id);
		}
		// the text of a run: a small alphabet so that patterns are met, now and then a null or a high character
		Ch ch()
		{
			unsigned k = (unsigned)r.below(64);
			if (k == 0)
				return Ch(0);
			if (k == 1)
				return sizeof(Ch) == 1 ? Ch(-23) : Ch(0x1234);
			if (k == 2)
				return Ch(' ');
			return Ch('a' + k % 3);
		}
		static std::string str(const M& a)
		{
			std::string s = "\"";
			for (size_t i = 0; i < a.size() && i < 150; ++i) {
				long c = (long)a[i];
				char b[16];
				if (c >= 32 && c < 127)
					snprintf(b, sizeof b, "%c", (char)c);
				else
					snprintf(b, sizeof b, "\\x%lx", c & 0xffff);
				s += b;
			}
			return s + (a.size() > 150 ? "...\"" : "\"");
		}
		void text(M& s, size_t n)
		{
			NoSim ns;
			s.clear();
			for (size_t i = 0; i < n; ++i)
				s.push_back(ch());
		}
		// the characters, element by element through the interface
		void read(const V& x, M& out)
		{
			size_t n = x.size();
			if (x.empty() != (n == 0) || x.length() != n || (size_t)(x.end() - x.begin()) != n)
				fail("CONTENTS", "size(), length(), empty() and end() - begin() disagree");
			if (x.capacity() < n)
				fail("CONTENTS", "capacity() %zu < size() %zu", x.capacity(), n);
			const Ch* d = x.data();
			if (x.c_str() != d || x.begin() != d)
				fail("CONTENTS", "data(), c_str() and begin() disagree");
			{
				NoSim ns;
				out.clear();
			}
			for (size_t i = 0; i < n; ++i) {
				Ch c = d[i];
				NoSim ns;
				out.push_back(c);
			}
			if (d[n] != Ch(0))
				fail("CONTENTS", "not null-terminated (size %zu)", n);
		}
		void same(int t, const char* what)
		{
			M g;
			read(*v[t], g);
			check_alloc(*v[t], aid[t]);
			NoSim ns;
			if (g != m[t])
				fail("CONTENTS", "%s: string %c is %s (%zu), should be %s (%zu)", what, 'A' + t, str(g).c_str(), g.size(), str(m[t]).c_str(), m[t].size());
			uint64_t hsh = 1469598103934665603ull;
			for (Ch c : g)
				hsh = (hsh ^ (uint64_t)c) * 1099511628211ull;
			state_hash(hsh ^ (v[t]->capacity() << 20));
			M().swap(g);
		}

		// an argument: characters of the string itself, of the other one or of an outside buffer of exactly that size
		struct Arg
		{
			const Ch* p;
			size_t n;
			M copy;
			Ch* own = nullptr;
			Arg(Runner& r, int t, const Op& o, bool allow_self)
			{
				int k = (int)((o.c >> 2) & 3);
				size_t len = (size_t)o.b;
				if ((k == 1 && allow_self) || k == 2) {
					V& s = k == 1 && allow_self ? *r.v[t] : *r.v[1 - t];
					size_t sz = s.size();
					size_t from = (size_t)(o.a / 7) % (sz + 1);
					if ((o.c & 0x40))
						from = 0;
					n = std::min(len, sz - from);
					if ((o.c & 0x80))
						n = sz - from;
					p = s.data() + from;
					NoSim ns;
					copy.assign(p, n);
				}
				else {
					r.text(copy, len);
					n = len;
					NoFault nf;
					own = static_cast<Ch*>(::operator new(sizeof(Ch) * (n + 1)));
					for (size_t i = 0; i < n; ++i)
						own[i] = copy[i];
					own[n] = 0;
					p = own;
				}
			}
			~Arg()
			{
				if (own)
					::operator delete(own, sizeof(Ch) * (n + 1));
				NoSim ns;
				M().swap(copy);
			}
			Arg(const Arg&) = delete;
			// as a null-terminated string
			const Ch* z() { return p; }
		};
		// the same, null-terminated
		struct Z
		{
			Ch* p;
			size_t n;
			Z(const M& s)
			{
				NoFault nf;
				n = std::min(s.size(), s.find(Ch(0)));
				p = static_cast<Ch*>(::operator new(sizeof(Ch) * (n + 1)));
				for (size_t i = 0; i < n; ++i)
					p[i] = s[i];
				p[n] = 0;
			}
			~Z() { ::operator delete(p, sizeof(Ch) * (n + 1)); }
		};
		struct StdS
		{
			M* s;
			StdS(const M& a)
			{
				NoSim ns;
				s = new M(a);
			}
			~StdS()
			{
				NoSim ns;
				delete s;
			}
		};

		template<class X, class Y>
		void expect(const char* what, X got, Y want, const M& s, const M& pat, size_t pos)
		{
			if ((size_t)got != (size_t)want) {
				NoSim ns;
				fail("LOOKUP", "%s(%s, %ld) of %s gives %ld, should give %ld", what, str(pat).c_str(), (long)pos, str(s).c_str(), (long)got, (long)want);
			}
		}
		static int sgn(int x) { return (x > 0) - (x < 0); }
		template<class X>
		void lookups(const X& x, const M& s, const Arg& a, size_t pos)
		{
			NoFault nf;
			const M& p = a.copy;
			Ch c = p.empty() ? Ch('a') : p[0];
			const Ch* ap = a.p;
			size_t an = a.n;
			expect("find", x.find(ap, pos, an), s.find(p, pos), s, p, pos);
			expect("rfind", x.rfind(ap, pos, an), s.rfind(p, pos), s, p, pos);
			expect("find_first_of", x.find_first_of(ap, pos, an), s.find_first_of(p, pos), s, p, pos);
			expect("find_last_of", x.find_last_of(ap, pos, an), s.find_last_of(p, pos), s, p, pos);
			expect("find_first_not_of", x.find_first_not_of(ap, pos, an), s.find_first_not_of(p, pos), s, p, pos);
			expect("find_last_not_of", x.find_last_not_of(ap, pos, an), s.find_last_not_of(p, pos), s, p, pos);
			M one(1, c);
			expect("find(char)", x.find(c, pos), s.find(c, pos), s, one, pos);
			expect("rfind(char)", x.rfind(c, pos), s.rfind(c, pos), s, one, pos);
			expect("find_first_of(char)", x.find_first_of(c, pos), s.find_first_of(c, pos), s, one, pos);
			expect("find_last_of(char)", x.find_last_of(c, pos), s.find_last_of(c, pos), s, one, pos);
			expect("find_first_not_of(char)", x.find_first_not_of(c, pos), s.find_first_not_of(c, pos), s, one, pos);
			expect("find_last_not_of(char)", x.find_last_not_of(c, pos), s.find_last_not_of(c, pos), s, one, pos);
			size_t start = std::min(pos, s.size());
			if (an) {
				size_t cnt = 0;
				for (size_t q = s.find(p, start); q != npos; q = s.find(p, q + an))
					++cnt;
				expect("count", x.count(ap, an, start), cnt, s, p, start);
			}
			expect("count(char)", x.count(c, start), (size_t)std::count(s.begin() + (long)start, s.end(), c), s, one, start);
			int w = sgn(s.compare(p));
			expect("compare", (long)sgn(x.compare(SV(ap, an))), (long)w, s, p, 0);
			expect("compare(str)", (long)sgn(x.compare(View(ap, an))), (long)w, s, p, 0);
			if ((x == SV(ap, an)) != (w == 0) || (x != SV(ap, an)) != (w != 0) || (x < SV(ap, an)) != (w < 0) || (x > SV(ap, an)) != (w > 0) || (x <= SV(ap, an)) != (w <= 0) || (x >= SV(ap, an)) != (w >= 0))
				fail("LOOKUP", "comparison operators disagree with compare()");
			size_t len = (size_t)r.below(40);
			if (r.chance(1, 6))
				len = r.chance(1, 2) ? npos : npos - 1;
			expect("compare(pos,len,str)", (long)sgn(x.compare(start, len, ap, an)), (long)sgn(s.compare(start, len, p)), s, p, start);
			// substr, copy, at
			size_t got = 0;
			bool th = false;
			Ch* buf = static_cast<Ch*>(::operator new(sizeof(Ch) * (s.size() + 1)));
			try {
				got = x.copy(buf, len, pos);
			}
			catch (const std::out_of_range&) {
				th = true;
			}
			if (th != (pos > s.size()))
				fail("LOOKUP", "copy() from %ld of a string of %zu %s", (long)pos, s.size(), th ? "throws" : "does not throw");
			if (!th && (got != std::min(len, s.size() - pos) || M(buf, got) != s.substr(pos, len)))
				fail("LOOKUP", "copy() delivers other characters");
			::operator delete(buf, sizeof(Ch) * (s.size() + 1));
			th = false;
			try {
				auto sub = x.substr(pos, len);
				if (M(sub.data(), sub.size()) != s.substr(pos, len))
					fail("LOOKUP", "substr() delivers other characters");
			}
			catch (const std::out_of_range&) {
				th = true;
			}
			if (th != (pos > s.size()))
				fail("LOOKUP", "substr() from %ld of a string of %zu %s", (long)pos, s.size(), th ? "throws" : "does not throw");
			th = false;
			try {
				if (x.at(pos) != s[pos])
					fail("LOOKUP", "at(%zu) is another character", pos);
			}
			catch (const std::out_of_range&) {
				th = true;
			}
			if (th != (pos >= s.size()))
				fail("LOOKUP", "at(%ld) of a string of %zu %s", (long)pos, s.size(), th ? "throws" : "does not throw");
			if (!s.empty() && (x.front() != s.front() || x.back() != s.back()))
				fail("LOOKUP", "front() or back() is another character");
			if (!std::equal(s.rbegin(), s.rend(), x.rbegin(), x.rend()))
				fail("CONTENTS", "reverse iteration meets other characters");
		}

		// every overload gives what its pointer and length version gives: strings of all kinds and null-terminated ones
		template<class X, class P>
		void lookups_of(const char* kind, const X& x, const M& s, const P& pat, const M& p, size_t pos)
		{
			const size_t start = std::min(pos, s.size());
			constexpr bool z = std::is_same_v<P, const Ch*>;
			constexpr bool tiny = !z && !std::is_same_v<P, M> && !std::is_same_v<P, SV>;
			auto ex = [&](const char* f, size_t got, size_t want) {
				if (got != want) {
					NoSim ns;
					fail("LOOKUP", "%s(%s %s, %ld) of %s gives %ld, should give %ld", f, kind, str(p).c_str(), (long)pos, str(s).c_str(), (long)got, (long)want);
				}
			};
			ex("find", x.find(pat, pos), s.find(p, pos));
			ex("find", x.find(pat), s.find(p));
			ex("rfind", x.rfind(pat, pos), s.rfind(p, pos));
			ex("rfind", x.rfind(pat), s.rfind(p));
			if constexpr (tiny || z) {
				ex("find_first_of", x.find_first_of(pat, pos), s.find_first_of(p, pos));
				ex("find_first_of", x.find_first_of(pat), s.find_first_of(p));
				ex("find_last_of", x.find_last_of(pat, pos), s.find_last_of(p, pos));
				ex("find_last_of", x.find_last_of(pat), s.find_last_of(p));
				ex("find_first_not_of", x.find_first_not_of(pat, pos), s.find_first_not_of(p, pos));
				ex("find_first_not_of", x.find_first_not_of(pat), s.find_first_not_of(p));
				ex("find_last_not_of", x.find_last_not_of(pat, pos), s.find_last_not_of(p, pos));
				ex("find_last_not_of", x.find_last_not_of(pat), s.find_last_not_of(p));
			}
			if (!p.empty()) {
				size_t cnt = 0;
				for (size_t q = s.find(p, z ? 0 : start); q != npos; q = s.find(p, q + p.size()))
					++cnt;
				if constexpr (z)
					ex("count", x.count(pat), cnt);
				else if constexpr (!std::is_same_v<X, View> || std::is_same_v<P, View> || !tiny)
					ex("count", x.count(pat, start), cnt);
			}
			ex("compare", (size_t)(1 + sgn(x.compare(pat))), (size_t)(1 + sgn(s.compare(p))));
			const size_t len = r.chance(1, 8) ? npos : (size_t)r.below(40);
			const size_t sub = (size_t)r.below(p.size() + 1), sublen = r.chance(1, 8) ? npos - 1 : (size_t)r.below(40);
			if constexpr (!std::is_same_v<X, View> || !tiny)
				ex("compare(pos,len)", (size_t)(1 + sgn(x.compare(start, len, pat))), (size_t)(1 + sgn(s.compare(start, len, p))));
			if constexpr (tiny)
				ex("compare(pos,len,pos,len)", (size_t)(1 + sgn(x.compare(start, len, pat, sub, sublen))), (size_t)(1 + sgn(s.compare(start, len, p, sub, sublen))));
			const int w = sgn(s.compare(p));
			if ((x == pat) != (w == 0) || (x != pat) != (w != 0) || (x < pat) != (w < 0) || (x > pat) != (w > 0) || (x <= pat) != (w <= 0) || (x >= pat) != (w >= 0) || (pat == x) != (w == 0) ||
			    (pat != x) != (w != 0) || (pat < x) != (w > 0) || (pat > x) != (w < 0) || (pat <= x) != (w >= 0) || (pat >= x) != (w <= 0)) {
				NoSim ns;
				fail("LOOKUP", "the comparison operators of %s with the %s %s disagree", str(s).c_str(), kind, str(p).c_str());
			}
		}
		template<class X>
		void overloads(const X& x, const M& s, const Arg& a, size_t pos)
		{
			NoFault nf;
			switch (r.below(5)) {
				case 0: {
					StdS t(a.copy);
					lookups_of("std::string", x, s, *t.s, a.copy, pos);
					if (a.n && r.chance(1, 2)) {
						// conversions
						M c;
						{
							M d = x;
							NoSim ns;
							c = d;
						}
						if (c != s)
							fail("CONTENTS", "the conversion to std::string gives other characters");
						NoSim ns;
						M().swap(c);
					}
					break;
				}
				case 1:
					lookups_of("string_view", x, s, SV(a.p, a.n), a.copy, pos);
					break;
				case 2:
					lookups_of("tstring_view", x, s, View(a.p, a.n), a.copy, pos);
					break;
				case 3: {
					Z z(a.copy);
					M p;
					{
						NoSim ns;
						p.assign(z.p, z.n);
					}
					lookups_of("null-terminated", x, s, static_cast<const Ch*>(z.p), p, pos);
					NoSim ns;
					M().swap(p);
					break;
				}
				default: {
					Wide w(a.p, a.n);
					lookups_of("tiny_string", x, s, w, a.copy, pos);
					break;
				}
			}
		}

		void apply(const Op& o, int t, M& exp, M& other, int* naid)
		{
			V& x = *v[t];
			V& y = *v[1 - t];
			const size_t n = m[t].size();
			size_t pos = n ? (size_t)o.a % (n + 1) : 0;
			if ((o.c & 0x30) == 0x10)
				pos = std::min<size_t>((size_t)o.a % 3, n);
			else if ((o.c & 0x30) == 0x20)
				pos = n - std::min<size_t>((size_t)o.a % 3, n);
			size_t len = (size_t)(o.a / 3) % (n - pos + 3);
			if (o.c & 0x100)
				len = (o.a & 1) ? npos : npos - 1;
			const size_t clen = std::min(len, n - pos);
			const int var = (int)(o.c >> 12);
			const Ch c = Ch('a' + o.a % 3);
			auto want = [&](auto f) {
				NoSim ns;
				f(exp);
			};
			using RA = It<Ch, std::random_access_iterator_tag>;
			using BI = It<Ch, std::bidirectional_iterator_tag>;
			using FW = It<Ch, std::forward_iterator_tag>;
			using IN = It<Ch, std::input_iterator_tag>;
			// a sub-part of a whole string as an argument
			V* ob = (o.c & 4) ? &x : &y;
			const M& om = (o.c & 4) ? m[t] : m[1 - t];
			const size_t spos = om.empty() ? 0 : (size_t)(o.a / 5) % (om.size() + 1);
			size_t slen = (size_t)o.b;
			if (o.c & 0x200)
				slen = (o.a & 1) ? npos : npos - 1;

			switch (o.code) {
				case ASSIGN: {
					switch (var % 15) {
						case 0:
						case 1: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(a.p, a.n);
							break;
						}
						case 2: {
							want([&](auto& e) { e = om.substr(spos, slen); });
							x.assign(*ob, spos, slen);
							break;
						}
						case 3: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							if (o.a & 1)
								x.assign(SV(a.p, a.n));
							else
								x = SV(a.p, a.n);
							break;
						}
						case 4: {
							Arg a(*this, t, o, true);
							StdS s(a.copy);
							want([&](auto& e) { e = a.copy; });
							if (o.a & 1)
								x.assign(*s.s);
							else
								x = *s.s;
							break;
						}
						case 5:
							want([&](auto& e) { e.assign((size_t)o.b, c); });
							x.assign((size_t)o.b, c);
							break;
						case 6: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(RA{ a.p }, RA{ a.p + a.n });
							break;
						}
						case 7: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(FW{ a.p }, FW{ a.p + a.n });
							break;
						}
						case 8: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(IN{ a.p }, IN{ a.p + a.n });
							break;
						}
						case 9: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(a.p, a.p + a.n);
							break;
						}
						case 10: {
							Arg a(*this, t, o, false);
							Z z(a.copy);
							want([&](auto& e) { e.assign(z.p, z.n); });
							if (o.a & 1)
								x.assign(z.p);
							else
								x = z.p;
							break;
						}
						case 11:
							want([&](auto& e) { e.assign(1, c); });
							x = c;
							break;
						case 12: {
							std::initializer_list<Ch> il = { c, Ch('x'), Ch('y'), Ch('z'), c };
							want([&](auto& e) { e = il; });
							if (o.a & 1)
								x.assign(il);
							else
								x = il;
							break;
						}
						case 13: // the tail of the string itself, null-terminated
							if (m[t].find(Ch(0), pos) != npos)
								break;
							want([&](auto& e) { e = m[t].substr(pos); });
							x.assign(x.c_str() + pos);
							break;
						case 14: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e = a.copy; });
							x.assign(View(a.p, a.n));
							break;
						}
					}
					break;
				}
				case APPEND: {
					switch (var % 14) {
						case 0:
						case 1: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x.append(a.p, a.n);
							break;
						}
						case 2:
							want([&](auto& e) { e += om; });
							if (o.a & 1)
								x.append(*ob);
							else
								x += *ob;
							break;
						case 3:
							want([&](auto& e) { e += om.substr(spos, slen); });
							x.append(*ob, spos, slen);
							break;
						case 4: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							if (o.a & 1)
								x.append(SV(a.p, a.n));
							else
								x += SV(a.p, a.n);
							break;
						}
						case 5: {
							Arg a(*this, t, o, false);
							StdS s(a.copy);
							size_t from = (size_t)o.a % (a.n + 1);
							want([&](auto& e) { e.append(a.copy, from, slen); });
							x.append(*s.s, from, slen);
							break;
						}
						case 6:
							want([&](auto& e) { e.append((size_t)o.b, c); });
							x.append((size_t)o.b, c);
							break;
						case 7: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x.append(RA{ a.p }, RA{ a.p + a.n });
							break;
						}
						case 8: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x.append(BI{ a.p }, BI{ a.p + a.n });
							break;
						}
						case 9: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x.append(IN{ a.p }, IN{ a.p + a.n });
							break;
						}
						case 10: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x.append(a.p, a.p + a.n);
							break;
						}
						case 11: {
							Arg a(*this, t, o, false);
							Z z(a.copy);
							want([&](auto& e) { e.append(z.p, z.n); });
							if (o.a & 1)
								x.append(z.p);
							else
								x += z.p;
							break;
						}
						case 12: {
							std::initializer_list<Ch> il = { c, Ch('x'), Ch('y') };
							want([&](auto& e) { e += il; });
							if (o.a & 1)
								x.append(il);
							else
								x += il;
							break;
						}
						case 13: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e += a.copy; });
							x += View(a.p, a.n);
							break;
						}
					}
					break;
				}
				case PUSH:
					if (n && (o.a & 1)) {
						want([&](auto& e) { e.push_back(e[pos % n]); });
						x.push_back(x[pos % n]);
					}
					else {
						want([&](auto& e) { e.push_back(c); });
						if (o.a & 2)
							x += c;
						else
							x.push_back(c);
					}
					break;
				case INSERT: {
					size_t ret = npos;
					switch (var % 13) {
						case 0:
						case 1: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.insert(pos, a.copy); });
							x.insert(pos, a.p, a.n);
							break;
						}
						case 2:
							want([&](auto& e) { e.insert(pos, M(om)); });
							x.insert(pos, *ob);
							break;
						case 3:
							want([&](auto& e) { e.insert(pos, om.substr(spos, slen)); });
							x.insert(pos, *ob, spos, slen);
							break;
						case 4: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.insert(pos, a.copy); });
							x.insert(pos, SV(a.p, a.n));
							break;
						}
						case 5: {
							Arg a(*this, t, o, true);
							StdS s(a.copy);
							want([&](auto& e) { e.insert(pos, a.copy); });
							x.insert(pos, *s.s);
							break;
						}
						case 6:
							want([&](auto& e) { e.insert(pos, (size_t)o.b, c); });
							if (o.a & 1)
								x.insert(pos, (size_t)o.b, c);
							else
								ret = (size_t)(x.insert(x.begin() + pos, (size_t)o.b, c) - x.begin());
							break;
						case 7: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.insert(pos, a.copy); });
							ret = (size_t)(x.insert(x.begin() + pos, RA{ a.p }, RA{ a.p + a.n }) - x.begin());
							break;
						}
						case 8: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.insert(pos, a.copy); });
							ret = (size_t)(x.insert(x.begin() + pos, FW{ a.p }, FW{ a.p + a.n }) - x.begin());
							break;
						}
						case 9: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.insert(pos, a.copy); });
							ret = (size_t)(x.insert(x.begin() + pos, IN{ a.p }, IN{ a.p + a.n }) - x.begin());
							break;
						}
						case 10:
							want([&](auto& e) { e.insert(pos, 1, c); });
							ret = (size_t)(x.insert(x.begin() + pos, c) - x.begin());
							break;
						case 11: {
							Arg a(*this, t, o, false);
							Z z(a.copy);
							want([&](auto& e) { e.insert(pos, z.p, z.n); });
							x.insert(pos, z.p);
							break;
						}
						case 12: {
							std::initializer_list<Ch> il = { c, Ch('x'), Ch('y') };
							want([&](auto& e) { e.insert(e.begin() + (long)pos, il); });
							ret = (size_t)(x.insert(x.begin() + pos, il) - x.begin());
							break;
						}
					}
					if (ret != npos && ret != pos)
						fail("CONTENTS", "insert() returns an iterator to position %ld instead of %zu", (long)ret, pos);
					break;
				}
				case ERASE:
					if (var % 3 == 0 || n == 0) {
						want([&](auto& e) { e.erase(pos, len); });
						x.erase(pos, len);
					}
					else if (var % 3 == 1) {
						if (pos == n)
							--pos;
						want([&](auto& e) { e.erase(pos, 1); });
						if ((size_t)(x.erase(x.begin() + pos) - x.begin()) != pos)
							fail("CONTENTS", "erase() returns another position");
					}
					else {
						want([&](auto& e) { e.erase(pos, clen); });
						if ((size_t)(x.erase(x.begin() + pos, x.begin() + pos + clen) - x.begin()) != pos)
							fail("CONTENTS", "erase() returns another position");
					}
					break;
				case POP:
					for (long i = 0; i <= o.a % 4 && !x.empty(); ++i) {
						want([&](auto& e) { e.pop_back(); });
						x.pop_back();
					}
					break;
				case REPLACE: {
					auto b = x.begin() + pos;
					auto be = b + clen;
					switch (var % 18) {
						case 0:
						case 1: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							if (o.a & 1)
								x.replace(pos, len, a.p, a.n);
							else
								x.replace(b, be, a.p, a.n);
							break;
						}
						case 2:
							want([&](auto& e) { e.replace(pos, len, M(om)); });
							if (o.a & 1)
								x.replace(pos, len, *ob);
							else
								x.replace(b, be, *ob);
							break;
						case 3:
							want([&](auto& e) { e.replace(pos, len, om.substr(spos, slen)); });
							x.replace(pos, len, *ob, spos, slen);
							break;
						case 4: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							if (o.a & 1)
								x.replace(pos, len, SV(a.p, a.n));
							else
								x.replace(b, be, SV(a.p, a.n));
							break;
						}
						case 5: {
							Arg a(*this, t, o, true);
							StdS s(a.copy);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							if (o.a & 1)
								x.replace(pos, len, *s.s);
							else
								x.replace(b, be, *s.s);
							break;
						}
						case 6:
						case 7: {
							Arg a(*this, t, o, true);
							StdS s(a.copy);
							size_t from = (size_t)o.a % (a.n + 1);
							want([&](auto& e) { e.replace(pos, len, a.copy, from, slen); });
							if (var % 18 == 6)
								x.replace(pos, len, *s.s, from, slen);
							else
								x.replace(pos, len, SV(a.p, a.n), from, slen);
							break;
						}
						case 8:
						case 9:
							want([&](auto& e) { e.replace(pos, len, (size_t)o.b, c); });
							if (o.a & 1)
								x.replace(pos, len, (size_t)o.b, c);
							else
								x.replace(b, be, (size_t)o.b, c);
							break;
						case 10:
						case 11: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							x.replace(b, be, RA{ a.p }, RA{ a.p + a.n });
							break;
						}
						case 12:
						case 13: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							x.replace(b, be, FW{ a.p }, FW{ a.p + a.n });
							break;
						}
						case 14: {
							Arg a(*this, t, o, true);
							want([&](auto& e) { e.replace(pos, len, a.copy); });
							x.replace(b, be, IN{ a.p }, IN{ a.p + a.n });
							break;
						}
						case 15:
						case 16: {
							Arg a(*this, t, o, false);
							Z z(a.copy);
							want([&](auto& e) { e.replace(pos, len, z.p, z.n); });
							if (o.a & 1)
								x.replace(pos, len, (const Ch*)z.p);
							else
								x.replace(b, be, (const Ch*)z.p);
							break;
						}
						case 17: {
							std::initializer_list<Ch> il = { c, Ch('x'), Ch('y') };
							want([&](auto& e) { e.replace(e.begin() + (long)pos, e.begin() + (long)(pos + clen), il); });
							x.replace(b, be, il);
							break;
						}
					}
					break;
				}
				case REPLACE_ALL: {
					Arg to(*this, t, o, false);
					M from;
					{
						NoSim ns;
						from = m[t].substr(pos, 1 + (size_t)o.a % 3);
						if (from.empty())
							from = M(1, c);
					}
					Z zf(from);
					if (!zf.n) {
						NoSim ns;
						M().swap(from);
						break;
					}
					size_t start = (o.c & 0x100) ? pos : 0, k = 0;
					want([&](auto& e) {
						size_t q = start;
						from.assign(zf.p, zf.n);
						while ((q = e.find(from, q)) != npos) {
							e.replace(q, from.size(), to.copy);
							q += to.n;
							++k;
						}
					});
					size_t got = 0;
					switch (var % 5) {
						case 1: got = x.replace(View(zf.p, zf.n), View(to.p, to.n), start); break;
						case 2: {
							StdS f(from), w(to.copy);
							got = x.replace(*f.s, *w.s, start);
							break;
						}
						case 3: got = x.replace(SV(zf.p, zf.n), SV(to.p, to.n), start); break;
						default: got = x.replace((const Ch*)zf.p, zf.n, to.p, to.n, start); break;
					}
					{
						NoSim ns;
						M().swap(from);
					}
					if (got != k)
						fail("CONTENTS", "replace(from,to) says %zu replacements, should be %zu", got, k);
					break;
				}
				case RESIZE:
					want([&](auto& e) { e.resize((size_t)o.b, (o.a & 1) ? c : Ch(0)); });
					if (o.a & 1)
						x.resize((size_t)o.b, c);
					else
						x.resize((size_t)o.b);
					break;
				case RESIZE_FRONT: {
					Ch f = (o.a & 1) ? c : Ch(0);
					want([&](auto& e) {
						if ((size_t)o.b <= e.size())
							e.erase(0, e.size() - (size_t)o.b);
						else
							e.insert((size_t)0, (size_t)o.b - e.size(), f);
					});
					if (o.a & 1)
						x.resize_front((size_t)o.b, c);
					else
						x.resize_front((size_t)o.b);
					break;
				}
				case RESERVE: x.reserve((size_t)o.b); break;
				case SHRINK: x.shrink_to_fit(); break;
				case CLEAR:
					want([&](auto& e) { e.clear(); });
					x.clear();
					break;
				case CTOR: {
					V* k = nullptr;
					int id = (int)(o.a % 3);
					int kind = var % 11;
					if (kind == 0) {
						{
							NoSim ns;
							other.assign((size_t)o.b, c);
						}
						k = new V((size_t)o.b, c, alloc(id));
					}
					else if (kind == 1) {
						{
							NoSim ns;
							other = om.substr(spos, slen);
						}
						k = new V(*ob, spos, slen, alloc(id));
					}
					else if (kind == 2) {
						{
							NoSim ns;
							other = om.substr(spos);
						}
						k = new V(*ob, spos, alloc(id));
					}
					else if (kind == 3) {
						std::initializer_list<Ch> il = { c, Ch('x'), Ch('y') };
						{
							NoSim ns;
							other = il;
						}
						k = new V(il, alloc(id));
					}
					else {
						Arg a(*this, t, o, true);
						StdS s(a.copy);
						Z z(a.copy);
						{
							NoSim ns;
							other = a.copy;
							if (kind == 9)
								other.assign(z.p, z.n);
						}
						switch (kind) {
							case 4: k = new V(a.p, a.n, alloc(id)); break;
							case 5: k = new V(RA{ a.p }, RA{ a.p + a.n }, alloc(id)); break;
							case 6: k = new V(FW{ a.p }, FW{ a.p + a.n }, alloc(id)); break;
							case 7: k = new V(IN{ a.p }, IN{ a.p + a.n }, alloc(id)); break;
							case 8: k = new V(*s.s, alloc(id)); break;
							case 9: k = new V((const Ch*)z.p, alloc(id)); break;
							default: k = new V(SV(a.p, a.n), alloc(id)); break;
						}
					}
					delete v[1 - t];
					v[1 - t] = k;
					naid[1 - t] = id;
					break;
				}
				case COPYCTOR:
				case MOVECTOR: {
					int id = (o.a & 1) ? (int)(o.a >> 1) % 3 : aid[t];
					{
						NoSim ns;
						other = m[t];
						if (o.code == MOVECTOR)
							exp.clear();
					}
					V* k = o.code == COPYCTOR ? ((o.a & 1) ? new V(x, alloc(id)) : new V(x)) : ((o.a & 1) ? new V(std::move(x), alloc(id)) : new V(std::move(x)));
					delete v[1 - t];
					v[1 - t] = k;
					naid[1 - t] = id;
					if (o.code == MOVECTOR) {
						NoFault nf;
						M g;
						read(x, g); // valid, whatever it holds
						x.clear();
						NoSim ns;
						M().swap(g);
					}
					break;
				}
				case COPYASSIGN:
					want([&](auto& e) { e = m[1 - t]; });
					if (Cfg::propagate)
						naid[t] = aid[1 - t];
					if (var & 1)
						x = y;
					else
						x.assign(y);
					break;
				case MOVEASSIGN:
					want([&](auto& e) {
						e = m[1 - t];
						other.clear();
					});
					if (Cfg::propagate)
						naid[t] = aid[1 - t];
					if (var & 1)
						x = std::move(y);
					else
						x.assign(std::move(y));
					{
						NoFault nf;
						M g;
						read(y, g);
						y.clear();
						if constexpr (Cfg::ids)
							naid[1 - t] = y.get_allocator().id;
						NoSim ns;
						M().swap(g);
					}
					break;
				case SWAP:
					if (Cfg::ids && !Cfg::propagate && aid[0] != aid[1])
						break;
					want([&](auto& e) {
						e = m[1 - t];
						other = m[t];
					});
					naid[t] = aid[1 - t];
					naid[1 - t] = aid[t];
					if (var & 1)
						x.swap(y);
					else {
						using seq::swap;
						swap(x, y);
					}
					break;
				case SELFASSIGN: {
					const V& k = x;
					if (var & 1)
						x = k;
					else
						x.assign(k);
					break;
				}
				case SET:
					if (!n)
						break;
					if (pos == n)
						--pos;
					want([&](auto& e) { e[pos] = c; });
					if (var & 1)
						x[pos] = c;
					else
						x.at(pos) = c;
					break;
				case LOOKUP: {
					Arg a(*this, t, o, true);
					size_t q = pos;
					if (o.c & 0x100)
						q = n + 1 + (size_t)o.a % 3;
					if (o.c & 0x200)
						q = (o.a & 1) ? npos : npos - 1;
					{
						lookups(x, m[t], a, q);
						overloads(x, m[t], a, q);
					}
					View w(x.data(), x.size());
					{
						lookups(w, m[t], a, q);
						overloads(w, m[t], a, q);
					}
					size_t hx = std::hash<V>()(x), hw = seq::hasher<V>()(SV(w.data(), w.size()));
					if (hx != hw || hx != std::hash<V>()(w))
						fail("LOOKUP", "equal strings have different hash values");
					break;
				}
				case CONCAT:
					if constexpr (sizeof(Ch) == 1) {
						Arg a(*this, t, o, true);
						V* k;
						int id = aid[t];
						{
							NoSim ns;
							other = var & 1 ? m[t] + a.copy : a.copy + m[t];
						}
						if (var % 4 == 0)
							k = new V(View(a.p, a.n) + x);
						else if (var % 4 == 1)
							k = new V(x + View(a.p, a.n));
						else if (var % 4 == 2)
							k = new V(SV(a.p, a.n) + x);
						else
							k = new V(x + SV(a.p, a.n));
						delete v[1 - t];
						v[1 - t] = k;
						naid[1 - t] = id;
					}
					break;
				case CROSS: {
					// to and from a string type with another inline capacity
					{
						NoSim ns;
						other = m[t];
					}
					Wide w(x);
					if (w.size() != x.size() || !(w == x))
						fail("CONTENTS", "conversion to another string type gives another string");
					if (var & 1) {
						V* k = new V(w);
						delete v[1 - t];
						v[1 - t] = k;
						naid[1 - t] = 0;
					}
					else
						y = w;
					break;
				}
				case READ: read_stream(x, o, exp); break;
				case WRITE: write_stream(x, o, m[t]); break;
			}
		}

		void read_stream(V& x, const Op& o, M& exp)
		{
			M s;
			text(s, (size_t)o.b);
			Ch* d;
			{
				NoFault nf;
				d = static_cast<Ch*>(::operator new(sizeof(Ch) * (s.size() + 1)));
				std::copy(s.begin(), s.end(), d);
			}
			struct Del
			{
				Ch* d;
				size_t n;
				~Del() { ::operator delete(d, sizeof(Ch) * n); }
			} del{ d, s.size() + 1 };
			bool caught = false;
			bool mask = o.a & 4;
			long width = (o.a & 8) ? (o.a / 16) % 12 : 0;
			{
				InBuf<Ch> sb(d, s.size(), 1 + (size_t)o.a % 7);
				std::basic_istream<Ch> is(&sb);
				if (mask)
					is.exceptions(std::ios_base::badbit);
				is.width(width);
				try {
					is >> x;
				}
				catch (const Injected&) {
					caught = true;
				}
				catch (const std::bad_alloc&) {
					caught = true;
				}
				catch (const std::ios_base::failure&) {
					fail("STREAM", "operator>> replaces the exception that was thrown by ios_base::failure");
				}
				NoFault nf;
				int fl = fired();
				M got;
				read(x, got);
				NoSim ns;
				// what the characters taken from the buffer amount to
				size_t used = sb.consumed(), b = 0;
				auto sp = [](Ch k) { return k == Ch(' '); };
				while (b < used && sp(s[b]))
					++b;
				M want(s, b, used - b);
				bool started = is.rdstate() == std::ios_base::goodbit || !want.empty();
				if (caught && !(mask && is.bad()))
					fail("STREAM", "operator>> lets an exception out although the stream does not ask for it");
				if (!caught && is.bad() && mask)
					fail("STREAM", "operator>> swallows an exception although the stream asks for it");
				if (is.bad() && !fl)
					fail("STREAM", "badbit without a failure");
				if (started && got != want)
					fail("STREAM", "operator>> read %s from %s, of which %zu characters are gone from the stream", str(got).c_str(), str(s).c_str(), used);
				if (!started && got != exp && !got.empty())
					fail("STREAM", "operator>> that read nothing left %s", str(got).c_str());
				if (want.empty() && !is.fail())
					fail("STREAM", "operator>> that read nothing does not set failbit");
				if (!want.empty() && !sb.thrown && !is.bad() && is.fail())
					fail("STREAM", "operator>> that read something sets failbit");
				for (Ch k : want)
					if (sp(k))
						fail("STREAM", "operator>> read over a space");
				if (width > 0 && want.size() > (size_t)width)
					fail("STREAM", "operator>> read more than width() characters");
				if (!fl) {
					bool stop = (width > 0 && want.size() == (size_t)width) || (used < s.size() && sp(s[used]));
					if (!stop && !is.eof())
						fail("STREAM", "operator>> stopped before the end of the word");
					if (is.width() != 0)
						fail("STREAM", "operator>> does not reset width()");
				}
				exp = got;
			}
			NoSim ns;
			M().swap(s);
		}
		void write_stream(const V& x, const Op& o, const M& s)
		{
			bool caught = false, mask = o.a & 4, left = o.a & 1;
			long width = (o.a & 8) ? (o.a / 16) % 40 : 0;
			M out;
			{
				OutBuf<Ch> sb(&out);
				std::basic_ostream<Ch> os(&sb);
				if (mask)
					os.exceptions(std::ios_base::badbit);
				os.width(width);
				os.fill(Ch('.'));
				if (left)
					os.setf(std::ios_base::left, std::ios_base::adjustfield);
				try {
					os << x;
				}
				catch (const Injected&) {
					caught = true;
					if (!sb.thrown)
						fail("STREAM", "operator<< throws although nothing threw");
				}
				catch (const std::ios_base::failure&) {
					if (sb.thrown || !mask || !sb.refused)
						fail("STREAM", "operator<< throws ios_base::failure");
				}
				NoSim ns;
				if (caught && !mask)
					fail("STREAM", "operator<< lets an exception out although the stream does not ask for it");
				if (!caught && sb.thrown && mask)
					fail("STREAM", "operator<< swallows an exception although the stream asks for it");
				if (sb.refused != os.bad())
					fail("STREAM", "badbit is %d after output that %s", (int)os.bad(), sb.refused ? "failed" : "succeeded");
				M want = s;
				if (width > (long)s.size())
					want.insert(left ? want.size() : 0, (size_t)width - s.size(), Ch('.'));
				if (sb.refused ? want.compare(0, out.size(), out) != 0 : want != out)
					fail("STREAM", "operator<< wrote %s, should be %s", str(out).c_str(), str(want).c_str());
				if (!sb.refused && os.width() != 0)
					fail("STREAM", "operator<< does not reset width()");
			}
			NoSim ns;
			M().swap(out);
		}

		void run(const Plan& p)
		{
			plan = &p;
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			r = Rng((uint64_t)p.get("rng", 1));
			for (int t = 0; t < 2; ++t) {
				aid[t] = p.get("sameid") ? 0 : t;
				text(m[t], (size_t)p.get(t ? "preB" : "preA"));
				v[t] = new V(alloc(aid[t]));
				for (Ch c : m[t])
					v[t]->push_back(c);
			}
			same(0, "prefill");
			same(1, "prefill");
			mark_nontrivial();
			int k = 0;
			for (const Op& po : p.tasks[0]) {
				Op o = po;
				int t = o.c & 1;
				// texts that doubled many times
				if (m[t].size() > (o.code == REPLACE_ALL ? 400u : 3000u))
					o.code = CLEAR;
				M exp, other;
				{
					NoSim ns;
					exp = m[t];
					other = m[1 - t];
					char buf[200];
					snprintf(buf, sizeof(buf), "%d: %s [size %zu, capacity %zu, other %zu]", k, show_op(p, o).c_str(), m[t].size(), v[t]->capacity(), m[1 - t].size());
					logf("%s", buf);
				}
				bool thrown = false;
				int naid[2] = { aid[0], aid[1] };
				progress();
				begin_op(o);
				try {
					apply(o, t, exp, other, naid);
				}
				catch (const Injected&) {
					thrown = true;
				}
				catch (const std::bad_alloc&) {
					thrown = true;
				}
				int f = end_op();
				if (thrown && !f)
					fail("EXCEPTION", "%s throws although nothing failed", op_names[o.code]);
				logf("   -> %s", thrown ? "threw" : "ok");
				if (!thrown) {
					NoSim ns;
					m[t].swap(exp);
					m[1 - t].swap(other);
					aid[0] = naid[0];
					aid[1] = naid[1];
				}
				else if (o.code == REPLACE_ALL) {
					// a sequence of replacements: some of them may be done
					M g;
					read(*v[t], g);
					NoSim ns;
					m[t].swap(g);
					M().swap(g);
				}
				std::string w;
				{
					NoSim ns;
					w = std::string(op_names[o.code]) + (thrown ? " that threw" : "");
				}
				same(0, w.c_str());
				same(1, w.c_str());
				NoSim ns;
				std::string().swap(w);
				M().swap(exp);
				M().swap(other);
				++k;
			}
			Op o;
			o.fk = F_ALLOC_P;
			o.fn = 1;
			begin_op(o);
			delete v[0];
			delete v[1];
			end_op();
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char buf[1500];
				describe_leaks(buf, sizeof(buf), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), buf);
			}
		}
	};

	template<class Cfg>
	void run_cfg(const Plan& p)
	{
		Runner<Cfg>* r;
		{
			NoSim ns;
			r = new Runner<Cfg>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
}
