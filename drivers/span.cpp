// C25: utki::span
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/utility.hpp>

#include <sys/mman.h>
#include <sys/resource.h>

#include <algorithm>
#include <array>
#include <sstream>

#include "common.hpp"

using namespace vf;

namespace {
struct wide {
	int v;
	int pad[2];

	wide(int v = 0) :
		v(v)
	{}

	operator int() const
	{
		return this->v;
	}
};

struct base {
	virtual ~base() = default;
	virtual void exec(const tokens& t) = 0;
};

template <class E>
struct impl : public base {
	std::unique_ptr<E[]> buf; // exact size
	size_t n;
	utki::span<E> sp[2];
	utki::span<const E> csp; // slot 2
	size_t off[3] = {0, 0, 0}, len[3] = {0, 0, 0}; // by our own count

	// n: the negative zero, which equals the other one
	static E parse(const std::string& t)
	{
		if (t == "n") {
			if constexpr (std::is_floating_point_v<E>) {
				return -E(0);
			}
			bad_script("element");
		}
		return E(int(num(t)));
	}

	explicit impl(const tokens& t) :
		buf(new E[t.size() - 2]),
		n(t.size() - 2)
	{
		for (size_t i = 2; i < t.size(); ++i) {
			this->buf[i - 2] = parse(t[i]);
		}
		ev e("mem");
		show(e);
	}

	void show(ev& e)
	{
		std::vector<int> m;
		for (size_t i = 0; i < this->n; ++i) {
			m.push_back(int(this->buf[i]));
		}
		e.v("m", m);
	}

	template <class F>
	void with(int s, F f)
	{
		if (s == 2) {
			f(this->csp);
		} else {
			f(this->sp[s]);
		}
	}

	void is(ev& e, int s, size_t o, size_t l)
	{
		this->off[s] = o;
		this->len[s] = l;
		with(s, [&](auto& x) {
			e.v("s", s).v("len", sat(x.size())).v("off", x.size() == 0 ? 0 : (long long)(x.data() - this->buf.get()));
		});
	}

	template <class Sp>
	void query(int s, const Sp& cs, Sp& x)
	{
		using namespace std;
		vector<int> indexed, forward, backward;
		for (size_t i = 0; i < len[s]; ++i) {
			indexed.push_back(int(cs[i]));
			if (&x[i] != &cs[i]) {
				indexed.push_back(-1);
			}
		}
		for (const auto& v : cs) {
			forward.push_back(int(v));
		}
		for (auto i = cs.rbegin(); i != cs.rend(); ++i) {
			backward.push_back(int(*i));
		}
		vector<int> f2, b2;
		for (auto i = cs.cbegin(); i != cs.cend(); ++i) {
			f2.push_back(int(*i));
		}
		for (auto i = cs.crbegin(); i != cs.crend(); ++i) {
			b2.push_back(int(*i));
		}
		if (f2 != forward) {
			forward = f2;
			forward.push_back(-1);
		}
		if (b2 != backward) {
			backward = b2;
			backward.push_back(-1);
		}
		vector<int> v;
		for (const auto& y : utki::make_vector(x)) {
			v.push_back(int(y));
		}
		if (size_t(utki::end_pointer(x) - x.data()) != x.size()) {
			v.push_back(-1);
		}
		ev e("query");
		e.v("s", s).v("size", sat(cs.size())).v("empty", cs.empty()).v("bytes", sat(cs.size_bytes())).v("unit", sizeof(E));
		e.v("indexed", indexed).v("forward", forward).v("backward", backward).v("vector", v);
		if (len[s] > 0) {
			e.v("front", &cs.front() == &x.front() ? int(cs.front()) : -1).v("back", &cs.back() == &x.back() ? int(cs.back()) : -1);
		}
		bool printed = std::is_same_v<E, int>;
		for (int x : forward) {
			printed = printed && 0 <= x && x <= 9;
		}
		e.v("printed", printed);
		if (printed) {
			stringstream ss;
			ss << cs;
			e.v("text", ss.str());
		}
	}

	void conversions()
	{
		std::vector<std::vector<int>> views;
		bool same = true;
		auto add = [&](auto s, const void* p) {
			views.emplace_back();
			for (const auto& x : s) {
				views.back().push_back(int(x));
			}
			if (s.size() != 0 && static_cast<const void*>(s.data()) != p) {
				same = false;
			}
		};
		std::vector<E> v(this->buf.get(), this->buf.get() + this->n);
		const auto& cv = v;
		add(utki::make_span(v), v.data());
		add(utki::make_span(cv), v.data());
		add(utki::span<E>(v), v.data());
		add(utki::span<const E>(v), v.data());
		add(utki::span<const E>(cv), v.data());
		add(utki::make_span(this->buf.get(), this->n), this->buf.get());
		utki::span<E> m(this->buf.get(), this->n);
		utki::span<const E> c = m;
		add(c, this->buf.get());
		auto cp = c;
		add(cp, this->buf.get());
		auto moved = std::move(cp);
		add(moved, this->buf.get());
		if (this->n == 3) {
			std::array<E, 3> a{this->buf[0], this->buf[1], this->buf[2]};
			const auto& ca = a;
			add(utki::make_span(a), a.data());
			add(utki::make_span(ca), a.data());
			add(utki::span<E>(a), a.data());
			add(utki::span<const E>(ca), a.data());
			// initializer lists live until the end of the full expression
			[&](utki::span<const E> s) {
				add(s, s.data());
			}({this->buf[0], this->buf[1], this->buf[2]});
			[&](utki::span<const E> s) {
				add(s, s.data());
			}(utki::make_span({this->buf[0], this->buf[1], this->buf[2]}));
		}
		if (this->n == 0) {
			std::array<E, 0> a{};
			const auto& ca = a;
			add(utki::make_span(a), nullptr);
			add(utki::make_span(ca), nullptr);
			add(utki::span<E>(), nullptr);
		}
		ev("conversions").v("views", views).v("same", same);
	}

	void exec(const tokens& t) override
	{
		const auto& op = t[0];
		if (op == "conv") {
			return conversions();
		}
		int s = int(num(t[1]));
		if (op == "whole") {
			if (s == 2) {
				this->csp = utki::span<const E>(this->buf.get(), this->n);
			} else {
				this->sp[s] = utki::make_span(this->buf.get(), this->n);
			}
			ev e("whole");
			is(e, s, 0, n);
		} else if (op == "none") {
			with(s, [&](auto& x) {
				x = std::decay_t<decltype(x)>();
			});
			ev e("none");
			is(e, s, 0, 0);
		} else if (op == "cp" || op == "rest" || op == "sub") {
			int a = int(num(t[2]));
			if (a == 2 && s != 2) {
				return;
			}
			size_t o = op == "cp" ? 0 : size_t(num(t[3]));
			size_t c = op == "sub" ? size_t(num(t[4])) : 0;
			if (o > len[a] || (op == "sub" && c > len[a] - o)) {
				return;
			}
			size_t nl = op == "cp" ? len[a] : op == "rest" ? len[a] - o : c;
			size_t no = off[a] + o;
			auto make = [&](const auto& from) {
				if (op == "cp") {
					return from;
				}
				return op == "rest" ? from.subspan(o) : from.subspan(o, c);
			};
			if (a == 2) {
				this->csp = make(this->csp);
			} else if (s == 2) {
				this->csp = make(this->sp[a]);
			} else {
				this->sp[s] = make(this->sp[a]);
			}
			ev e(op == "cp" ? "copy" : op);
			e.v("a", a);
			if (op != "cp") {
				e.v("o", o);
			}
			if (op == "sub") {
				e.v("c", c);
			}
			is(e, s, no, nl);
		} else if (op == "q") {
			with(s, [&](auto& x) {
				query(s, x, x);
			});
		} else if (op == "at") {
			size_t i = size_t(unum(t[2]));
			int v = 0;
			std::string r = outcome([&]() {
				with(s, [&](auto& x) {
					const auto& c = x;
					v = int(x.at(i));
					if (&x.at(i) != &c.at(i)) {
						v = -1;
					}
				});
			});
			std::string r2 = outcome([&]() {
				with(s, [&](auto& x) {
					const auto& c = x;
					(void)c.at(i);
				});
			});
			ev("at").v("s", s).v("i", sat(i)).v("v", v).s_("r", r == r2 ? r : "overloads_differ");
		} else if (op == "wr") {
			size_t i = size_t(num(t[2]));
			int v = int(num(t[3]));
			if (s == 2 || i >= len[s]) {
				return;
			}
			auto& x = this->sp[s];
			switch (num(t[4])) {
				case 0:
					x[i] = E(v);
					break;
				case 1:
					x.at(i) = E(v);
					break;
				case 2:
					*(x.begin() + std::ptrdiff_t(i)) = E(v);
					break;
				case 3:
					*(x.rbegin() + std::ptrdiff_t(len[s] - 1 - i)) = E(v);
					break;
				case 4:
					i = 0;
					x.front() = E(v);
					break;
				default:
					i = len[s] - 1;
					x.back() = E(v);
					break;
			}
			ev e("write");
			e.v("s", s).v("i", i).v("v", v);
			show(e);
		} else if (op == "ov") {
			long long p = num(t[2]);
			// pointers are made from integers, they may be outside of the block
			auto q = reinterpret_cast<const E*>(reinterpret_cast<uintptr_t>(this->buf.get()) + uintptr_t(p * (long long)(sizeof(E))));
			bool r = false;
			with(s, [&](auto& x) {
				r = utki::overlaps(x, q);
			});
			ev("overlaps").v("s", s).v("p", p).v("res", r);
		} else if (op == "cmp") {
			int a = int(num(t[2]));
			auto compare = [&](const auto& x, const auto& y) {
				ev("compare")
					.v("s", s)
					.v("a", a)
					.v("eq", utki::deep_equals(x, y))
					.v("ne", utki::deep_not_equals(x, y))
					.v("lt", utki::deep_less_than(x, y))
					.v("ge", utki::deep_greater_or_equals(x, y))
					.v("gt", utki::deep_greater_than(x, y))
					.v("le", utki::deep_less_or_equals(x, y));
			};
			with(s, [&](auto& x) {
				with(a, [&](auto& y) {
					compare(x, y);
					// equal elements of another type
					std::vector<double> z;
					for (const auto& i : y) {
						z.push_back(double(int(i)));
					}
					compare(x, utki::make_span(z));
				});
			});
		} else {
			bad_script(op);
		}
	}
};

void text(const std::string& t)
{
	std::vector<std::vector<unsigned>> views, terminated;
	auto bytes = [](auto s) {
		std::vector<unsigned> r;
		for (auto c : s) {
			r.push_back(unsigned(uint8_t(c)));
		}
		return r;
	};
	exact_buffer b(t);
	std::string s = t;
	const std::string& cs = s;
	auto add = [&](auto v, const void* p) {
		views.push_back(bytes(v));
		if (v.size() != 0 && static_cast<const void*>(v.data()) != p) {
			views.back().push_back(1000);
		}
	};
	add(utki::make_span(s), s.data());
	add(utki::make_span(cs), s.data());
	add(utki::make_span(b.sv()), b.p);
	add(utki::span<char>(s), s.data());
	add(utki::span<const char>(cs), s.data());
	add(utki::span<const char>(s), s.data());
	add(utki::span<const char>(b.sv()), b.p);
	add(utki::to_uint8_t(utki::make_span(s)), s.data());
	add(utki::to_uint8_t(utki::make_span(cs)), s.data());
	add(utki::to_char(utki::span<uint8_t>(b.p, b.len)), b.p);
	add(utki::to_char(utki::span<const uint8_t>(b.p, b.len)), b.p);
	add(utki::make_string_view(utki::span<const char>(b.sv())), b.p);
	add(utki::make_string_view(utki::make_span(cs)), s.data());
	add(utki::make_string_view(utki::span<const uint8_t>(b.p, b.len)), b.p);
	std::u32string u(t.begin(), t.end());
	for (auto& c : u) {
		c &= 0xff;
	}
	std::u16string w(u.begin(), u.end());
	const auto& cu = u;
	add(utki::make_span(u), u.data());
	add(utki::make_span(cu), u.data());
	add(utki::span<char32_t>(u), u.data());
	add(utki::span<const char32_t>(cu), u.data());
	add(utki::make_span(std::u16string_view(w)), w.data());
	std::wstring l(u.begin(), u.end());
	const auto& cw = w;
	const auto& cl = l;
	add(utki::make_span(w), w.data());
	add(utki::make_span(cw), w.data());
	add(utki::span<char16_t>(w), w.data());
	add(utki::span<const char16_t>(cw), w.data());
	add(utki::span<const char16_t>(std::u16string_view(w)), w.data());
	add(utki::make_span(l), l.data());
	add(utki::make_span(cl), l.data());
	add(utki::span<wchar_t>(l), l.data());
	add(utki::span<const wchar_t>(l), l.data());
	add(utki::span<const wchar_t>(cl), l.data());
	add(utki::span<const wchar_t>(std::wstring_view(l)), l.data());
	add(utki::span<const char32_t>(std::u32string_view(u)), u.data());
	std::stringstream ss;
	ss << utki::make_span(cs);
	views.push_back(bytes(ss.str()));
	std::vector<char> z(t.begin(), t.end());
	z.push_back(0);
	exact_buffer zb(z.data(), z.size());
	terminated.push_back(bytes(utki::make_span(zb.c())));
	terminated.push_back(bytes(utki::span<const char>(zb.c())));
	ev("text").v("t", t).v("views", views).v("terminated", terminated);
}

// a number in base 2^20, least significant digit last
std::vector<unsigned> based(unsigned long long n)
{
	std::vector<unsigned> r;
	for (int sh = 60; sh >= 0; sh -= 20) {
		r.push_back(unsigned((n >> sh) & 0xfffff));
	}
	return r;
}

// memory which is reserved only
template <class E>
void huge(const tokens& t)
{
	size_t n = size_t(unum(t[2])), o = size_t(unum(t[3])), c = size_t(unum(t[4]));
	if (o > n || c > n - o) {
		bad_script("window");
	}
	size_t bytes = n * sizeof(E) + 1;
	// the runner's limit is against runaway allocations
	rlimit old{};
	getrlimit(RLIMIT_AS, &old);
	rlimit lifted{old.rlim_max, old.rlim_max};
	setrlimit(RLIMIT_AS, &lifted);
	void* m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	setrlimit(RLIMIT_AS, &old);
	if (m == MAP_FAILED) {
		return;
	}
	auto p = static_cast<E*>(m);
	auto offset = [&](const E* q) {
		return based((unsigned long long)(uintptr_t(q) - uintptr_t(p)) / sizeof(E));
	};
	utki::span<E> s(p, n);
	utki::span<const E> cs = s;
	auto sub = cs.subspan(o, c);
	auto rest = s.subspan(o);
	p[n - 1] = E(7);
	ev e("huge");
	e.v("n", based(n)).v("o", based(o)).v("c", based(c)).v("unit", sizeof(E));
	e.v("size", based(s.size())).v("bytes", based(s.size_bytes())).v("sub", based(sub.size())).v("rest", based(rest.size()));
	e.v("sub_at", offset(sub.data())).v("rest_at", offset(rest.data()));
	e.v("sub_end", offset(utki::end_pointer(sub))).v("rest_end", offset(utki::end_pointer(rest)));
	e.v("last", int(s[n - 1]) == 7 && int(cs.at(n - 1)) == 7 && int(cs.back()) == 7 && int(*s.rbegin()) == 7 && (o == n || int(rest[n - 1 - o]) == 7));
	e.v("last_at", offset(&s.back())).v("beyond", outcome([&]() {
		(void)cs.at(n);
	}) == "out_of_range");
	e.v("overlaps", utki::overlaps(s, static_cast<const E*>(p + (n - 1))));
	e.v("overlaps_beyond", utki::overlaps(s, static_cast<const E*>(p + n)));
	munmap(m, bytes);
}

thread_local std::unique_ptr<base> b;

void exec(const tokens& t)
{
	if (t[0] == "huge") {
		if (t[1] == "b") {
			huge<uint8_t>(t);
		} else if (t[1] == "c") {
			huge<char>(t);
		} else if (t[1] == "i") {
			huge<int>(t);
		} else if (t[1] == "w") {
			huge<wide>(t);
		} else {
			bad_script("element");
		}
		return;
	}
	if (t[0] == "mem") {
		if (t[1] == "i") {
			b = std::make_unique<impl<int>>(t);
		} else if (t[1] == "b") {
			b = std::make_unique<impl<uint8_t>>(t);
		} else if (t[1] == "c") {
			b = std::make_unique<impl<char>>(t);
		} else if (t[1] == "q") {
			b = std::make_unique<impl<uint64_t>>(t);
		} else if (t[1] == "h") {
			b = std::make_unique<impl<int8_t>>(t);
		} else if (t[1] == "f") {
			b = std::make_unique<impl<float>>(t);
		} else if (t[1] == "d") {
			b = std::make_unique<impl<double>>(t);
		} else if (t[1] == "w") {
			b = std::make_unique<impl<wide>>(t);
		} else {
			bad_script("kind");
		}
		return;
	}
	if (t[0] == "text") {
		return text(unhex_str(t[1]));
	}
	b->exec(t);
}
} // namespace

int main()
{
	return run(
		[]() {
			b.reset();
		},
		exec
	);
}
