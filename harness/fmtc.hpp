// Formatting: several tasks format at once, values format while they are being formatted, and memory, user code
// and streams fail. What comes out must be what an independent model of the text says, whatever else happens.
#pragma once
#include "common.hpp"
#include <limits>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

#include <seq/any.hpp>
#include <seq/format.hpp>
#include <seq/tiny_string.hpp>

namespace fm
{
	using namespace h;

	enum // where the text goes
	{
		STR,
		STR_TINY,
		CONVERT,
		APPEND,
		APPEND_TINY,
		BUFFER,
		BUFFER_MAX,
		ITER,
		STREAM,
		STREAM_BAD, // a stream that is already unusable
		COPY,	    // a copy of the formatting object, then the object itself
		NOPS
	};
	enum // what is formatted
	{
		K_INT,
		K_HEX,
		K_BIN, // long enough to need more room than the buffers have
		K_DBL,
		K_CHAR,
		K_STR,
		K_USER,	  // a type with a stream operator
		K_CUSTOM, // a type with its own formatting class
		K_NEST,	  // formatting objects within formatting objects
		K_MULTI,
		K_MULTI_USER,
		K_MULTI_NEST,
		K_JOIN,
		K_JOIN_INT,
		K_JOIN_USER,
		K_JOIN_STR,
		K_SLOTS, // a functor given new values
		K_SLOTS_USER,
		K_SLOTS_NEST,
		K_TABLE, // the task's own functor, kept between operations
		K_SHARED, // a copy of a functor that all tasks copy
		K_SPLIT,
		K_ANY,
		K_ANY_USER,
		KINDS
	};
	extern const char* const op_names[NOPS];
	extern const char* const kind_names[KINDS];
	std::string show_op(const Plan&, const Op& o);
	void gen(Plan& p, Rng& r);

	template<class Ch>
	std::basic_string<Ch> wide(const std::string& s)
	{
		return std::basic_string<Ch>(s.begin(), s.end());
	}
	template<class Ch>
	struct Lit // a literal of either character type, in static storage
	{
		Ch s[24];
		constexpr Lit(const char* p)
		  : s{}
		{
			for (int i = 0; p[i]; ++i)
				s[i] = (Ch)p[i];
		}
		constexpr operator const Ch*() const { return s; }
	};
#define L(x) ([]() -> const Ch* { static constexpr fm::Lit<Ch> l(x); return l.s; }())

	struct Rec
	{
		int kind = 0;
		long v = 0, w = 0; // value, second value
		int width = 0, al = 0;
		char fill = ' ';
	};

	// ---------------------------------------------------------------- a type that is written to streams
	struct User
	{
		long v;
		Life l;
		explicit User(long x = 0)
		  : v(x)
		{
			l.born("value");
		}
		User(const User& o)
		  : v(o.v)
		{
			o.l.check("copied value");
			l.born("value");
		}
		User& operator=(const User& o)
		{
			o.l.check("copied value");
			v = o.v;
			return *this;
		}
		~User() { l.dead("value"); }
	};
	inline std::string user_text(long v)
	{
		switch (v % 7) {
			case 0: return "<" + std::to_string(v) + ">";
			case 1: return "(**abc***)";
			case 2: return "n=" + std::to_string(v) + ";";
			case 3: return "s" + std::to_string(v);
			case 4: return "[" + user_text(v / 7) + "," + user_text(v / 7 + 1) + "]";
			case 5: return "plain " + std::to_string(v);
			default: return std::to_string(v) + "-" + std::to_string(v + 1) + "!";
		}
	}
	template<class Ch>
	std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& os, const User& u)
	{
		u.l.check("formatted value");
		point();
		maybe_throw(F_FUNC);
		long v = u.v;
		switch (v % 7) {
			case 0: os << seq::fmt(L("<"), v, L(">")); break;
			case 1: os << L("(") << seq::fmt(L("abc")).c(8).f('*') << L(")"); break;
			case 2: {
				Ch b[40];
				*seq::fmt(L("n="), v).to_chars(b) = 0;
				os << b;
				Ch one[4];
				auto e = seq::fmt(L(";")).to_chars(one, 1);
				os.write(one, e.first - one);
				break;
			}
			case 3: {
				std::basic_string<Ch> s = seq::fmt(L("s"), v);
				os << s;
				break;
			}
			case 4: {
				User a(v / 7), b(v / 7 + 1);
				os << seq::fmt(L("["), a, L(","), seq::fmt(b), L("]"));
				break;
			}
			case 5: os << L("plain ") << v; break;
			default: {
				Ch b[40];
				Ch* e = seq::join(L("-"), v, v + 1).to_iter((Ch*)b);
				os.write(b, e - b);
				os << seq::fmt(L("!"));
			}
		}
		u.l.check("formatted value");
		return os;
	}

	// ---------------------------------------------------------------- a type with a formatting class
	struct Custom
	{
		long v;
		Life l;
		explicit Custom(long x = 0)
		  : v(x)
		{
			l.born("value");
		}
		Custom(const Custom& o)
		  : v(o.v)
		{
			o.l.check("copied value");
			l.born("value");
		}
		~Custom() { l.dead("value"); }
	};
	inline std::string custom_text(long v)
	{
		return "{" + std::to_string(v) + "|" + user_text(v / 2) + "|" + std::to_string(v % 10) + "}";
	}
}
namespace seq
{
	template<bool S>
	class ostream_format<fm::Custom, S> : public base_ostream_format<fm::Custom, ostream_format<fm::Custom, S>>
	{
		using base_type = base_ostream_format<fm::Custom, ostream_format<fm::Custom, S>>;

	public:
		ostream_format()
		  : base_type()
		{
		}
		explicit ostream_format(const fm::Custom& v)
		  : base_type(v)
		{
		}
		template<class String>
		size_t to_string(String& out) const
		{
			using Ch = typename String::value_type;
			const fm::Custom& c = this->value();
			c.l.check("formatted value");
			size_t prev = out.size();
			out.append(L("{"));
			ostream_format<long>(c.v, this->numeric_fmt()).append(out);
			out.append(L("|"));
			sim::point();
			sim::maybe_throw(sim::F_FUNC);
			{
				fm::User u(c.v / 2);
				std::basic_string<Ch> s = fmt(u);
				out.append(s.c_str(), s.size());
			}
			fmt(L("|"), fmt(c.v % 10)).append(out);
			out.append(L("}"));
			return out.size() - prev;
		}
	};
	template<>
	struct is_hashable<fm::User> : std::false_type
	{
	};
	template<>
	struct is_hashable<fm::Custom> : std::false_type
	{
	};
}
namespace fm
{
	// ---------------------------------------------------------------- a stream that may fail
	template<class Ch>
	struct OutBuf : std::basic_streambuf<Ch>
	{
		using Tr = std::char_traits<Ch>;
		std::basic_string<Ch> got;
		bool failed = false;
		typename Tr::int_type overflow(typename Tr::int_type c) override
		{
			Ch ch = Tr::to_char_type(c);
			return xsputn(&ch, 1) == 1 ? c : Tr::eof();
		}
		std::streamsize xsputn(const Ch* s, std::streamsize n) override
		{
			if (!n)
				return 0;
			point();
			if (fault_point(F_IO_ERR)) {
				failed = true;
				throw Injected{ F_IO_ERR };
			}
			std::streamsize k = n;
			if (fault_point(F_IO_SHORT)) {
				failed = true;
				k = n / 2;
			}
			for (std::streamsize i = 0; i < k; ++i) {
				if (i == k / 2)
					point(); // another task formats while this one hands its text over
				Ch c = s[i];
				NoSim ns;
				got.push_back(c);
			}
			return k;
		}
	};

	inline std::string pad(std::string s, const Rec& r, bool truncate)
	{
		size_t w = (size_t)r.width;
		if (!r.al || s.size() == w)
			return s;
		if (s.size() > w) {
			if (!truncate)
				return s;
			size_t d = s.size() - w;
			return r.al == 1 ? s.substr(0, w) : r.al == 2 ? s.substr(d) : s.substr(d / 2, w);
		}
		size_t d = w - s.size();
		size_t left = r.al == 1 ? 0 : r.al == 2 ? d : d / 2;
		return std::string(left, r.fill) + s + std::string(d - left, r.fill);
	}
	inline std::string hex_text(long v, bool up)
	{
		char b[40];
		snprintf(b, sizeof(b), up && v ? "0x%lX" : "%lx", v); // zero has no prefix
		return b;
	}
	inline long int_val(const Rec& r)
	{
		return r.w % 8 == 7 ? std::numeric_limits<long>::min() + r.v : r.v - r.w;
	}
	inline size_t bin_val(const Rec& r)
	{
		return ((size_t)r.v * 0x9E3779B97F4A7C15ull) >> (r.w % 64);
	}
	inline std::string bin_text(size_t v)
	{
		std::string s;
		do
			s.insert(s.begin(), char('0' + (v & 1)));
		while (v >>= 1);
		return s;
	}
	inline std::string dbl_text(long v)
	{
		char b[40];
		snprintf(b, sizeof(b), "%g", (double)(v % 4000) / 4);
		return b;
	}
	inline double dbl(long v)
	{
		return (double)(v % 4000) / 4;
	}
	inline std::string str_text(long v)
	{
		// some fit in place in any string type, some do not
		return std::string((size_t)(v % 3) * (size_t)(v % 23), char('a' + v % 26)) + std::to_string(v);
	}
	inline std::string split_text(long v)
	{
		std::string s;
		for (unsigned long x = (unsigned long)v * 2654435761u + 17, i = 0; i < (unsigned long)v % 20; ++i, x = x * 6364136223846793005ul + 1442695040888963407ul)
			s += "abc,"[x >> 62];
		return s;
	}
	inline std::string table_text(const Rec& a)
	{
		Rec c10 = a, r9 = a, l12 = a;
		c10.width = 10, c10.al = 3;
		r9.width = 9, r9.al = 2;
		l12.width = 12, l12.al = 1;
		return "|" + pad(dbl_text(a.v), c10, false) + "|" + pad(std::to_string(a.w), r9, false) + "|" + pad(str_text(a.v), l12, true) + "|";
	}

	// the model: what must come out
	inline std::string text(const Rec& r)
	{
		switch (r.kind) {
			case K_INT: return pad(std::to_string(int_val(r)), r, false);
			case K_HEX: return pad(hex_text(r.v, r.w & 1), r, false);
			case K_BIN: return pad(bin_text(bin_val(r)), r, false);
			case K_DBL: return pad(dbl_text(r.v), r, false);
			case K_CHAR: return pad(std::string(1, char('A' + r.v % 26)), r, false);
			case K_STR: return pad(str_text(r.v), r, true);
			case K_USER: return pad(user_text(r.v), r, true);
			case K_CUSTOM: return pad(custom_text(r.v), r, true);
			case K_NEST: {
				Rec in = r;
				in.width = 20, in.al = 3, in.fill = '*';
				return pad(pad(r.w & 1 ? user_text(r.v) : str_text(r.v), in, true), r, true);
			}
			case K_MULTI: return pad("v=" + std::to_string(r.v) + " w=" + dbl_text(r.w) + " " + str_text(r.v), r, true);
			case K_MULTI_USER: return pad("u=" + user_text(r.v) + " c=" + custom_text(r.w) + " " + user_text(r.w), r, true);
			case K_MULTI_NEST: {
				Rec in = r;
				in.width = 24, in.al = 2, in.fill = '.';
				return pad("[" + pad(user_text(r.v) + "/" + std::to_string(r.w), in, true) + "](" + std::to_string(r.v) + "," + user_text(r.w) + ")", r, true);
			}
			case K_JOIN: return pad(std::to_string(r.v) + ", " + user_text(r.w) + ", " + str_text(r.v), r, true);
			case K_JOIN_INT:
			case K_JOIN_USER:
			case K_JOIN_STR: {
				std::string s;
				Rec in = r;
				in.width = 4, in.al = 2, in.fill = ' ';
				for (long i = 0; i < r.w % 6; ++i)
					s += (i ? "--" : "") + (r.kind == K_JOIN_INT ? pad(std::to_string(r.v + i), in, false) : r.kind == K_JOIN_USER ? user_text(r.v + i) : str_text(r.v + i));
				return pad(s, r, true);
			}
			case K_SLOTS: return pad("<" + std::to_string(r.v) + " " + dbl_text(r.w) + " " + str_text(r.w) + ">", r, true);
			case K_SLOTS_USER: return pad("<" + user_text(r.v) + " " + custom_text(r.w) + ">", r, true);
			case K_SLOTS_NEST: {
				Rec in = r;
				in.width = 20, in.al = 3, in.fill = ' ';
				return "A: " + pad(str_text(r.v) + "/" + user_text(r.w), in, true) + " B: " + pad(std::to_string(r.w) + "/" + std::to_string(r.v), in, true);
			}
			case K_TABLE:
			case K_SHARED: return table_text(r);
			case K_SPLIT: {
				std::string s = split_text(r.v), o;
				for (char c : s)
					o += c == ',' ? std::string("<;>") : std::string(1, c);
				return o;
			}
			case K_ANY: {
				Rec a = r, b = r;
				a.width = 14, a.al = 1, a.fill = '.';
				b.width = 12, b.al = 3, b.fill = ' ';
				return pad(str_text(r.v), a, true) + "|" + pad(dbl_text(r.w), b, false) + "|" + pad(std::to_string(r.v) + "ms", b, true) + "|";
			}
			case K_ANY_USER: {
				Rec a = r;
				a.width = 30, a.al = 3, a.fill = '.';
				return "=" + pad(user_text(r.v), a, true) + "|" + user_text(r.w);
			}
		}
		return "?";
	}

	template<class O>
	void align(O& o, const Rec& r)
	{
		switch (r.al) {
			case 1: o.left(r.width).fill((char32_t)r.fill); break;
			case 2: o.right(r.width).fill((char32_t)r.fill); break;
			case 3: o.center(r.width).fill((char32_t)r.fill); break;
		}
	}
	template<class Ch>
	auto make_table()
	{
		return seq::fmt(seq::pos<1, 3, 5>(), L("|"), seq::fmt<double>().c(10), L("|"), seq::fmt<long>().r(9), L("|"), seq::str<Ch>().l(12), L("|"));
	}
	template<class Ch>
	using Table = decltype(make_table<Ch>());

	template<class T, bool = std::is_class_v<T>>
	struct Off // an object made, and later destroyed, with the simulation off
	{
		T* p;
		template<class... A>
		explicit Off(A&&... a)
		{
			NoSim ns;
			p = new T(std::forward<A>(a)...);
		}
		Off(const Off&) = delete;
		~Off()
		{
			NoSim ns;
			delete p;
		}
		T& operator*() const { return *p; }
		T* operator->() const { return p; }
	};

	template<class Ch>
	struct Runner
	{
		using Str = std::basic_string<Ch>;
		using Tiny = seq::tiny_string<Ch>;
		std::vector<Table<Ch>*> own;
		Table<Ch>* shared = nullptr;
		const Plan* plan = nullptr;

		struct Text // a string of the model, as a string of the library's character type
		{
			Off<Str> s;
			static Str* mk(const std::string& t)
			{
				NoSim ns;
				return new Str(wide<Ch>(t));
			}
			explicit Text(std::string (*f)(long), long v)
			{
				NoSim ns;
				*s = wide<Ch>(f(v));
			}
			const Str& operator*() const { return *s; }
		};

		static std::string narrow(const Ch* s, size_t n)
		{
			std::string r;
			for (size_t i = 0; i < n; ++i)
				r += s[i] > 31 && s[i] < 127 ? (char)s[i] : '?';
			return r;
		}
		static void is(const Ch* s, size_t n, const std::string& e, const Rec& r, const Op& op)
		{
			NoSim ns;
			if (Str(s, n) != wide<Ch>(e))
				fail("TEXT", "%s of %s gives \"%s\", expected \"%s\"", op_names[op.code], kind_names[r.kind], narrow(s, n).c_str(), e.c_str());
		}
		static void is_part(const Ch* s, size_t n, const std::string& e, const Rec& r, const Op& op)
		{
			NoSim ns;
			if (n > e.size() || Str(s, n) != wide<Ch>(e.substr(0, n)))
				fail("TEXT", "%s of %s hands over \"%s\", expected a part of \"%s\"", op_names[op.code], kind_names[r.kind], narrow(s, n).c_str(), e.c_str());
		}

		template<class S, class O>
		static void append(O& x, const std::string& e, const Rec& r, const Op& op)
		{
			long n = (r.v + r.w) % 40;
			S s((size_t)n, (Ch)'p');
			Off<std::string> pre((size_t)n, 'p');
			try {
				x.append(s);
			}
			catch (...) {
				is(s.data(), std::min((size_t)n, (size_t)s.size()), *pre, r, op);
				throw;
			}
			Off<std::string> all(*pre);
			{
				NoSim ns;
				*all += e;
			}
			is(s.data(), s.size(), *all, r, op);
		}

		template<class O>
		static void stream(O& x, const std::string& e, const Rec& r, const Op& op, bool again)
		{
			using Os = std::basic_ostream<Ch>;
			Off<OutBuf<Ch>> b;
			Off<Os> os(b.p);
			bool ex = (r.v ^ r.w) & 1;
			if (op.code == STREAM_BAD) {
				switch ((r.v / 2) % 4) {
					case 0: os->setstate(std::ios_base::badbit); break;
					case 1: os->setstate(std::ios_base::eofbit); break;
					case 2: os->setstate(std::ios_base::failbit); break;
					default: os->rdbuf(nullptr);
				}
				bool good = os->good();
				*os << x;
				if (!b->got.empty() || good || os->good())
					fail("STREAM", "text is handed to a stream that is not in a good state");
				return;
			}
			if (ex)
				os->exceptions(std::ios_base::badbit);
			bool thrown = true;
			struct Look
			{
				OutBuf<Ch>& b;
				Os& os;
				const std::string& e;
				const Rec& r;
				const Op& op;
				bool& thrown;
				~Look()
				{
					is_part(b.got.data(), b.got.size(), e, r, op);
					if (!thrown && b.failed && os.good())
						fail("STREAM", "a stream did not take the text of %s, yet its state is good and nothing is thrown", kind_names[r.kind]);
					if (!b.failed && thrown && !b.got.empty() && b.got.size() != e.size())
						fail("STREAM", "formatting %s fails with part of the text handed over", kind_names[r.kind]);
					if (!b.failed && !thrown && os.good() && b.got.size() != e.size())
						fail("STREAM", "the stream gets only part of the text of %s", kind_names[r.kind]);
					if (!b.failed && !fired() && !os.good())
						fail("STREAM", "the state of the stream is bad for no reason");
				}
			};
			{
				Look l{ *b, *os, e, r, op, thrown };
				*os << x;
				thrown = false;
			}
			if (!again)
				return;
			// the stream still works
			NoFault nf;
			os->clear();
			{
				NoSim ns;
				b->got.clear();
				b->failed = false;
			}
			*os << x;
			is(b->got.data(), b->got.size(), e, r, op);
		}

		template<bool WithTiny = true, class O>
		static void sink(O& x, const Rec& r, const Op& op)
		{
			Off<std::string> eo;
			{
				NoSim ns;
				*eo = text(r);
			}
			const std::string& e = *eo;
			switch (op.code) {
				case STR: {
					Str s = x.template str<Str>();
					is(s.data(), s.size(), e, r, op);
					break;
				}
				case STR_TINY:
					if constexpr (WithTiny) {
						Tiny s = x.template str<Tiny>();
						is(s.data(), s.size(), e, r, op);
					}
					break;
				case CONVERT: {
					if (r.v & 1) {
						Str s = x;
						is(s.data(), s.size(), e, r, op);
					}
					else if constexpr (WithTiny) {
						Tiny s = x;
						is(s.data(), s.size(), e, r, op);
					}
					break;
				}
				case APPEND: append<Str>(x, e, r, op); break;
				case APPEND_TINY:
					if constexpr (WithTiny)
						append<Tiny>(x, e, r, op);
					break;
				case BUFFER:
				case BUFFER_MAX:
				case ITER: {
					size_t cap = e.size(), n;
					if (op.code == BUFFER_MAX)
						cap = (size_t)(r.v + r.w) % (e.size() + 3);
					Off<Str> b(cap + 4, (Ch)'#');
					Ch *p = &(*b)[0], *q;
					if (op.code == BUFFER) {
						q = x.to_chars(p);
						n = (size_t)(q - p);
					}
					else if (op.code == ITER) {
						q = x.to_iter(p);
						n = (size_t)(q - p);
					}
					else {
						std::pair<Ch*, size_t> pr = x.to_chars(p, cap);
						q = pr.first;
						n = pr.second;
						if ((size_t)(q - p) != std::min(cap, e.size()))
							fail("TEXT", "a buffer of %zu characters gets %ld of the %zu of %s", cap, (long)(q - p), e.size(), kind_names[r.kind]);
					}
					if (n != e.size())
						fail("TEXT", "%s gives size %zu, expected %zu", kind_names[r.kind], n, e.size());
					is_part(p, (size_t)(q - p), e, r, op);
					for (size_t i = (size_t)(q - p); i < cap + 4; ++i)
						if (p[i] != (Ch)'#')
							fail("TEXT", "formatting %s to a buffer writes past the end", kind_names[r.kind]);
					break;
				}
				case STREAM:
				case STREAM_BAD:
					if constexpr (std::is_same_v<Ch, typename O::valid_char_type>)
						stream(x, e, r, op, true);
					else {
						Str s = x.template str<Str>();
						is(s.data(), s.size(), e, r, op);
					}
					break;
				case COPY: {
					auto y = *x;
					Str s = y.template str<Str>();
					is(s.data(), s.size(), e, r, op);
					s = x.template str<Str>();
					is(s.data(), s.size(), e, r, op);
				}
			}
		}

		// build the formatting object of r and hand it over
		void one(const Rec& r, const Op& op, Table<Ch>& table)
		{
			auto f = [&](auto& x) { sink(x, r, op); };
			auto fa = [&](auto& x) {
				align(x, r);
				sink(x, r, op);
			};
			switch (r.kind) {
				case K_INT: {
					auto x = seq::fmt(int_val(r));
					fa(x);
					break;
				}
				case K_HEX: {
					auto x = seq::hex(r.v);
					if (r.w & 1)
						x.h().u();
					fa(x);
					break;
				}
				case K_BIN: {
					auto x = seq::bin(bin_val(r));
					fa(x);
					break;
				}
				case K_DBL: {
					auto x = seq::fmt(dbl(r.v));
					fa(x);
					break;
				}
				case K_CHAR: {
					auto x = seq::ch((char)('A' + r.v % 26));
					fa(x);
					break;
				}
				case K_STR: {
					Text s(str_text, r.v);
					auto x = seq::fmt(*s);
					fa(x);
					break;
				}
				case K_USER: {
					Off<User> u(r.v);
					auto x = seq::fmt(*u);
					fa(x);
					break;
				}
				case K_CUSTOM: {
					Off<Custom> u(r.v);
					auto x = seq::fmt(*u);
					fa(x);
					break;
				}
				case K_NEST:
					if (r.w & 1) {
						Off<User> u(r.v);
						auto x = seq::fmt(seq::fmt(*u).c(20).f('*'));
						fa(x);
					}
					else {
						Text s(str_text, r.v);
						auto x = seq::fmt(seq::fmt(*s).c(20).f('*'));
						fa(x);
					}
					break;
				case K_MULTI: {
					Text s(str_text, r.v);
					auto x = seq::fmt(L("v="), r.v, L(" w="), dbl(r.w), L(" "), *s);
					fa(x);
					break;
				}
				case K_MULTI_USER: {
					Off<User> u(r.v), w(r.w);
					Off<Custom> c(r.w);
					auto x = seq::fmt(L("u="), *u, L(" c="), *c, L(" "), *w);
					fa(x);
					break;
				}
				case K_MULTI_NEST: {
					Off<User> u(r.v), w(r.w);
					auto x = seq::fmt(L("["), seq::fmt(*u, L("/"), r.w).r(24).f('.'), L("]("), seq::join(L(","), r.v, *w), L(")"));
					fa(x);
					break;
				}
				case K_JOIN: {
					Text s(str_text, r.v);
					Off<User> u(r.w);
					auto x = seq::join(L(", "), r.v, *u, *s);
					fa(x);
					break;
				}
				case K_JOIN_INT: {
					Off<std::vector<long>> v;
					{
						NoSim ns;
						for (long i = 0; i < r.w % 6; ++i)
							v->push_back(r.v + i);
					}
					auto x = seq::join(L("--"), *v, seq::fmt<long>().r(4));
					fa(x);
					break;
				}
				case K_JOIN_USER: {
					Off<std::vector<User>> v;
					{
						NoSim ns;
						for (long i = 0; i < r.w % 6; ++i)
							v->push_back(User(r.v + i));
					}
					auto x = seq::join(L("--"), *v);
					fa(x);
					break;
				}
				case K_JOIN_STR: {
					Off<std::vector<Str>> v;
					{
						NoSim ns;
						for (long i = 0; i < r.w % 6; ++i)
							v->push_back(wide<Ch>(str_text(r.v + i)));
					}
					auto x = seq::join(L("--"), *v);
					fa(x);
					break;
				}
				case K_SLOTS: {
					Text s(str_text, r.w);
					auto x = seq::fmt(L("<"), seq::_fmt<long>(), L(" "), seq::_g(), L(" "), seq::_str<Ch>(), L(">"));
					x(r.w, 1.5, L("abc"));
					x(r.v, dbl(r.w), *s);
					fa(x);
					break;
				}
				case K_SLOTS_USER: {
					Off<User> u(r.v), u0(r.w);
					Off<Custom> c(r.w), c0(r.v);
					auto x = seq::fmt(L("<"), seq::_fmt(*u0), L(" "), seq::_fmt<Custom>(), L(">"));
					x(*u0, *c0);
					if (r.v & 1)
						x(seq::fmt(*u), seq::fmt(*c));
					else
						x(*u, *c);
					fa(x);
					break;
				}
				case K_SLOTS_NEST: {
					Text s(str_text, r.v);
					Off<User> u(r.w);
					auto x = seq::fmt(L("A: "), seq::_fmt(seq::_str<Ch>(), L("/"), seq::_fmt<User>()).c(20), L(" B: "), seq::_fmt(seq::_d(), L("/"), seq::_d()).c(20));
					x(seq::fmt(*s, *u), seq::fmt(r.w, r.v));
					f(x);
					break;
				}
				case K_TABLE: {
					Text s(str_text, r.v);
					if (r.w % 3 == 0) {
						table(dbl(r.v), seq::null, seq::null);
						table(seq::null, r.w, *s);
					}
					else
						table(dbl(r.v), r.w, *s);
					table.template get<5>().f((char32_t)r.fill);
					table.template get<3>().f((char32_t)r.fill);
					table.template get<1>().f((char32_t)r.fill);
					f(table);
					break;
				}
				case K_SHARED: {
					Text s(str_text, r.v);
					auto x = **shared;
					x.template get<5>().f((char32_t)r.fill);
					x.template get<3>().f((char32_t)r.fill);
					x.template get<1>().f((char32_t)r.fill);
					x(dbl(r.v), r.w, *s);
					f(x);
					break;
				}
				case K_SPLIT: {
					Text s(split_text, r.v);
					auto p = seq::split(*s, seq::by_char((Ch)','), seq::no_skip());
					auto x = seq::join(L("<;>"), p);
					f(x);
					Str t = seq::replace<Str>(*s, L(","), L("<;>"));
					Off<std::string> e;
					{
						NoSim ns;
						*e = text(r);
					}
					is(t.data(), t.size(), *e, r, op);
					break;
				}
				case K_ANY:
				case K_ANY_USER:
					if constexpr (std::is_same_v<Ch, char>)
						dynamic(r, op);
					break;
			}
		}
		void dynamic(const Rec& r, const Op& op)
		{
			auto f = [&](auto& x) { sink<false>(x, r, op); };
			if (r.kind == K_ANY) {
				Text s(str_text, r.v);
				auto ms = seq::fmt(seq::_fmt<long>(), "ms");
				auto x = seq::join("|", seq::_a().l(14).f('.'), seq::_a().c(12), seq::_a().c(12), "");
				x(r.w, std::string("x"), 1);
				x(*s, dbl(r.w), *ms(r.v));
				f(x);
			}
			else {
				Off<User> u(r.v), w(r.w);
				auto x = seq::fmt("=", seq::_a().c(30).f('.'), "|", seq::_a());
				x(*w, *u);
				x(*u, *w);
				f(x);
			}
		}

		void task(const std::vector<Op>& ops, Table<Ch>& t)
		{
			for (const Op& op : ops) {
				Rec r;
				r.kind = (int)(op.a & 63);
				r.al = (int)(op.a >> 6 & 3);
				r.width = (int)(op.a >> 8 & 255);
				r.fill = "* -"[(op.a >> 16 & 3) % 3];
				r.v = op.b;
				r.w = op.c;
				logf("%s of %s", op_names[op.code], kind_names[r.kind]);
				begin_op(op);
				bool bad = false, user = false, io = false;
				try {
					one(r, op, t);
				}
				catch (const std::bad_alloc&) {
					bad = true;
				}
				catch (const Injected& i) {
					(i.kind == F_FUNC ? user : io) = true;
				}
				catch (const std::ios_base::failure&) {
					io = true;
				}
				int n = end_op();
				if ((bad || user || io) && !n)
					fail("EXCEPTION", "%s reports a failure that did not happen", op_names[op.code]);
				if (bad || user || io) {
					NoFault nf;
					one(r, op, t); // nothing is left of the failure
				}
			}
		}
		void run(const Plan& p)
		{
			HeapMark hm = heap_mark();
			uint64_t ai = alloc_index();
			long live = g_live;
			watch_static();
			plan = &p;
			mark_nontrivial();
			shared = new Table<Ch>(make_table<Ch>());
			{
				NoSim ns;
				own.resize(p.tasks.size());
			}
			for (size_t t = 0; t < p.tasks.size(); ++t)
				spawn([this, t] {
					auto* tb = new Table<Ch>(**shared);
					own[t] = tb;
					task(plan->tasks[t], *tb);
					delete own[t];
				});
			join_all();
			delete shared;
			{
				NoSim ns;
				std::vector<Table<Ch>*>().swap(own);
			}
			if (g_live != live)
				fail("LEAK", "%ld values were never destroyed", g_live - live);
			HeapMark e = heap_mark();
			if (e.live_blocks != hm.live_blocks) {
				NoSim ns;
				char b[1500];
				describe_leaks(b, sizeof(b), ai);
				fail("LEAK", "%ld memory blocks were never released: %s", (long)(e.live_blocks - hm.live_blocks), b);
			}
		}
	};

	template<class Ch>
	void run_cfg(const Plan& p)
	{
		Runner<Ch>* r;
		{
			NoSim ns;
			r = new Runner<Ch>();
		}
		r->run(p);
		NoSim ns;
		delete r;
	}
#undef L
}
