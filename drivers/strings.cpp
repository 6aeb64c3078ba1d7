// C06, C07, C11, C12: string functions
#include <array>
#include <cmath>
#include <cstdarg>
#include <deque>
#include <list>
#include <sstream>

#include <utki/string.hpp>

#include <iomanip>

#include "common.hpp"

using namespace vf;

namespace {
std::wstring widen(const std::string& s)
{
	std::wstring r;
	for (char c : s) {
		r.push_back(wchar_t(uint8_t(c)));
	}
	return r;
}

std::string narrow(std::wstring_view s)
{
	std::string r;
	for (auto c : s) {
		r.push_back(char(uint8_t(c)));
	}
	return r;
}

std::vector<std::string> narrow(const std::vector<std::wstring>& v)
{
	std::vector<std::string> r;
	for (auto& s : v) {
		r.push_back(narrow(s));
	}
	return r;
}

bool has_zero(const std::string& s)
{
	return s.find('\0') != std::string::npos;
}

template <class T>
void add(std::vector<T>& all, T c)
{
	for (auto& a : all) {
		if (a == c) {
			return;
		}
	}
	all.push_back(std::move(c));
}

using strs = std::vector<std::string>;

// offset and length of a view inside a text of n characters starting at p; an empty view has no specified position
template <class C>
std::vector<long long> where(std::basic_string_view<C> v, const C* p, size_t n)
{
	if (v.empty()) {
		return {0, 0};
	}
	if (std::less<const C*>()(v.data(), p) || std::less<const C*>()(p + n, v.data())) {
		return {-1, (long long)(v.size())};
	}
	return {(long long)(v.data() - p), (long long)(v.size())};
}

std::string va(const char* format, ...)
{
	va_list args;
	va_start(args, format);
	auto r = utki::make_string_va_list(format, args);
	va_end(args);
	return r;
}

// arguments of a format, of types known at run time only
struct arg {
	char type;
	long long n;
	std::string s;
	double d;
};

std::string bytes_of(const std::string& s)
{
	std::string r = "[";
	for (char c : s) {
		r += (r.size() > 1 ? "," : "") + std::to_string(unsigned(uint8_t(c)));
	}
	return r + "]";
}

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
template <class... T>
void format_with(std::vector<std::string>& res, const char* format, const std::vector<arg>& args, T... a)
{
	if (sizeof...(a) == args.size()) {
		res.push_back(utki::make_string(format, a...));
		res.push_back(va(format, a...));
		return;
	}
	if constexpr (sizeof...(a) < 4) {
		const auto& x = args[sizeof...(a)];
		switch (x.type) {
			case 'i':
				return format_with(res, format, args, a..., int(x.n));
			case 'l':
				return format_with(res, format, args, a..., x.n);
			case 's':
				return format_with(res, format, args, a..., x.s.c_str());
			case 'd':
				return format_with(res, format, args, a..., x.d);
		}
	}
	bad_script("arguments");
}

template <class... T>
std::string formatted(const char* format, T... a)
{
	return utki::make_string(format, a...);
}
#pragma GCC diagnostic pop

// a value given by the script, streamed by cat()
struct value {
	std::string kind; // s v z c i u l
	std::string text;
	long long n = 0;
};

// a value given by the script, which may change the formatting of the stream it is written to
struct styled {
	std::string kind;
	long long n = 0;
	std::string text;
};

std::ostream& operator<<(std::ostream& o, const styled& x)
{
	if (x.kind == "int") {
		return o << int(x.n);
	}
	if (x.kind == "bool") {
		return o << (x.n != 0);
	}
	if (x.kind == "text") {
		return o << x.text;
	}
	if (x.kind == "char") {
		return o << x.text.at(0);
	}
	if (x.kind == "base") {
		return o << std::setbase(int(x.n));
	}
	if (x.kind == "set" || x.kind == "unset") {
		auto flag = x.n == 0 ? std::ios::showbase : x.n == 1 ? std::ios::showpos : x.n == 2 ? std::ios::uppercase : std::ios::boolalpha;
		if (x.kind == "set") {
			o.setf(flag);
		} else {
			o.unsetf(flag);
		}
		return o;
	}
	if (x.kind == "adjust") {
		o.setf(x.n == 0 ? std::ios::right : x.n == 1 ? std::ios::left : std::ios::internal, std::ios::adjustfield);
		return o;
	}
	if (x.kind == "width") {
		return o << std::setw(int(x.n));
	}
	if (x.kind == "fill") {
		return o << std::setfill(char(x.n));
	}
	if (x.kind == "bad") {
		o.setstate(std::ios::failbit); // nothing more is written
		return o;
	}
	bad_script(x.kind);
}

std::string cat1(const value& a)
{
	if (a.kind == "s") {
		return utki::cat(a.text);
	}
	if (a.kind == "v") {
		return utki::cat(std::string_view(a.text));
	}
	if (a.kind == "z") {
		return utki::cat(a.text.c_str());
	}
	if (a.kind == "c") {
		return utki::cat(a.text.at(0));
	}
	if (a.kind == "i") {
		return utki::cat(int(a.n));
	}
	return utki::cat((long long)(a.n));
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "split") { // split text delimiter
		auto text = unhex_str(t[1]);
		auto d = char(unhex(t[2]).at(0));
		std::vector<strs> res;
		exact_buffer b(text);
		add(res, utki::split(b.sv(), d));
		add(res, utki::split(text, d));
		if (!has_zero(text)) {
			exact_buffer z(text.c_str(), text.size() + 1);
			add(res, utki::split(z.c(), d));
		}
		add(res, narrow(utki::split(std::wstring_view(widen(text)), wchar_t(uint8_t(d)))));
		add(res, narrow(utki::split(widen(text), wchar_t(uint8_t(d)))));
		ev("split").v("t", text).v("d", unsigned(uint8_t(d))).v("res", res);
		// joining the pieces
		std::vector<std::string> j;
		add(j, utki::join(res.front(), d));
		ev("rejoin").v("t", text).v("d", unsigned(uint8_t(d))).v("res", j);
	} else if (op == "wsplit") { // wsplit delimiter code*: texts of wide characters
		auto d = unsigned(unum(t[1]));
		std::vector<unsigned> text;
		unsigned top = d;
		for (size_t i = 2; i < t.size(); ++i) {
			text.push_back(unsigned(unum(t[i])));
			top = std::max(top, text.back());
		}
		std::vector<std::vector<std::vector<unsigned>>> res;
		auto wide = [&](auto c) {
			using C = decltype(c);
			std::basic_string<C> s(text.begin(), text.end());
			auto out = [](const auto& v) {
				std::vector<std::vector<unsigned>> r;
				for (const auto& p : v) {
					r.emplace_back(p.begin(), p.end());
				}
				return r;
			};
			add(res, out(utki::split(std::basic_string_view<C>(s), C(d))));
			add(res, out(utki::split(s, C(d))));
			if (s.find(C(0)) == s.npos) {
				add(res, out(utki::split(s.c_str(), C(d))));
			}
		};
		wide(wchar_t());
		wide(char32_t());
		if (top <= 0xffff) {
			wide(char16_t());
		}
		ev("split").v("t", text).v("d", d).v("res", res);
		std::vector<std::wstring> w;
		for (const auto& p : res.front()) {
			w.emplace_back(p.begin(), p.end());
		}
		auto j = utki::join(w, wchar_t(d));
		ev("rejoin").v("t", text).v("d", d).v("res", std::vector<std::vector<unsigned>>{{j.begin(), j.end()}});
	} else if (op == "wtrim") { // wtrim code*
		std::vector<unsigned> text;
		unsigned top = 0;
		for (size_t i = 1; i < t.size(); ++i) {
			text.push_back(unsigned(unum(t[i])));
			top = std::max(top, text.back());
		}
		using pos = std::vector<long long>;
		std::vector<pos> f, k, m;
		auto wide = [&](auto c) {
			using C = decltype(c);
			std::basic_string<C> w(text.begin(), text.end());
			std::basic_string_view<C> v = w;
			add(f, where(utki::trim_front(w), w.data(), w.size()));
			add(k, where(utki::trim_back(w), w.data(), w.size()));
			add(m, where(utki::trim(w), w.data(), w.size()));
			add(f, where(utki::trim_front(v), w.data(), w.size()));
			add(k, where(utki::trim_back(v), w.data(), w.size()));
			add(m, where(utki::trim(v), w.data(), w.size()));
		};
		std::string how = outcome([&]() {
			wide(wchar_t());
			wide(char32_t());
			if (top <= 0xffff) {
				wide(char16_t());
			}
#if __cplusplus >= 202002L
			if (top <= 0xff) {
				wide(char8_t());
			}
#endif
		});
		if (how != "ok") {
			m.push_back({-1});
		}
		ev("trim").v("t", text).v("f", f).v("k", k).v("m", m);
	} else if (op == "words") {
		auto text = unhex_str(t[1]);
		exact_buffer b(text);
		ev("words").v("t", text).v("res", utki::split(b.sv()));
	} else if (op == "join") { // join delimiter text*
		auto d = char(unhex(t[1]).at(0));
		strs l;
		std::vector<std::wstring> w;
		for (size_t i = 2; i < t.size(); ++i) {
			l.push_back(unhex_str(t[i]));
			w.push_back(widen(l.back()));
		}
		std::vector<std::string> res;
		add(res, utki::join(l, d));
		std::vector<std::string_view> v(l.begin(), l.end());
		add(res, utki::join(v, d));
		add(res, utki::join(std::deque<std::string>(l.begin(), l.end()), d));
		add(res, utki::join(std::list<std::string>(l.begin(), l.end()), d));
		add(res, utki::join(utki::make_span(l), d));
		if (l.size() == 3) {
			add(res, utki::join(std::array<std::string_view, 3>{l[0], l[1], l[2]}, d));
		}
		add(res, narrow(utki::join(w, wchar_t(uint8_t(d)))));
		ev("join").v("l", l).v("d", unsigned(uint8_t(d))).v("res", res);
	} else if (op == "cat") { // cat (kind:value)*
		std::vector<value> a;
		for (size_t i = 1; i < t.size(); ++i) {
			value v;
			v.kind = t[i].substr(0, 1);
			auto x = t[i].substr(2);
			if (v.kind == "i" || v.kind == "l") {
				v.n = num(x);
			} else {
				v.text = unhex_str(x);
			}
			a.push_back(v);
		}
		std::vector<std::string> res;
		std::string parts;
		for (auto& v : a) {
			parts += cat1(v);
		}
		add(res, parts);
		// the values together, in one call
		auto s = [&](size_t i) -> std::string {
			std::stringstream ss;
			a[i].kind == "i" || a[i].kind == "l" ? ss << a[i].n : ss << a[i].text;
			return ss.str();
		};
		switch (a.size()) {
			case 0:
				add(res, utki::cat());
				break;
			case 1:
				break;
			case 2:
				add(res, utki::cat(s(0), s(1)));
				if (a[0].kind == "i" && a[1].kind == "s") {
					add(res, utki::cat(int(a[0].n), a[1].text));
				}
				if (a[0].kind == "s" && a[1].kind == "i") {
					add(res, utki::cat(std::string_view(a[0].text), int(a[1].n)));
				}
				if (a[0].kind == "c" && a[1].kind == "l") {
					add(res, utki::cat(a[0].text[0], (long long)(a[1].n)));
				}
				if (a[0].kind == "i" && a[1].kind == "i") {
					add(res, utki::cat(int(a[0].n), short(0) + int(a[1].n)));
				}
				break;
			case 3:
				add(res, utki::cat(s(0), s(1), s(2)));
				add(res, utki::cat(std::string_view(s(0)), s(1).c_str() == nullptr ? "" : std::string(s(1)), s(2)));
				if (a[0].kind == "i" && a[1].kind == "c" && a[2].kind == "i") {
					add(res, utki::cat(int(a[0].n), a[1].text[0], int(a[2].n)));
				}
				break;
			default:
				add(res, utki::cat(s(0), s(1), s(2), s(3)));
				break;
		}
		std::string j = "[";
		for (size_t i = 0; i < a.size(); ++i) {
			j += i ? "," : "";
			bool isn = a[i].kind == "i" || a[i].kind == "l";
			j += "{\"num\":" + std::string(isn ? "true" : "false") + ",\"n\":" + std::to_string(isn ? a[i].n : 0) + ",\"t\":[";
			for (size_t k = 0; k < a[i].text.size(); ++k) {
				j += (k ? "," : "") + std::to_string(unsigned(uint8_t(a[i].text[k])));
			}
			j += "]}";
		}
		ev("cat").raw("a", j + "]").v("res", res);
	} else if (op == "styled") { // styled (kind:value)*
		std::vector<styled> a;
		std::string j = "[";
		for (size_t i = 1; i < t.size(); ++i) {
			auto c = t[i].find(':');
			styled x;
			x.kind = t[i].substr(0, c);
			if (x.kind == "text" || x.kind == "char") {
				x.text = unhex_str(t[i].substr(c + 1));
			} else {
				x.n = num(t[i].substr(c + 1));
			}
			j += (i > 1 ? "," : "") + std::string("{\"k\":\"") + x.kind + "\",\"n\":" + std::to_string(x.n) + ",\"t\":" + bytes_of(x.text) + "}";
			a.push_back(x);
		}
		std::string res;
		switch (a.size()) {
			case 1:
				res = utki::cat(a[0]);
				break;
			case 2:
				res = utki::cat(a[0], a[1]);
				break;
			case 3:
				res = utki::cat(a[0], a[1], a[2]);
				break;
			case 4:
				res = utki::cat(a[0], a[1], a[2], a[3]);
				break;
			case 5:
				res = utki::cat(a[0], a[1], a[2], a[3], a[4]);
				break;
			case 9:
				res = utki::cat(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
				break;
			default:
				bad_script("number of values");
		}
		ev("styled").raw("a", j + "]").v("res", res);
	} else if (op == "wrap") { // wrap text width
		auto text = unhex_str(t[1]);
		auto w = unsigned(unum(t[2]));
		exact_buffer b(text);
		ev("wrap").v("t", text).v("w", sat(w)).v("res", utki::word_wrap(b.sv(), w));
	} else if (op == "trim") {
		auto text = unhex_str(t[1]);
		using pos = std::vector<long long>;
		std::vector<pos> f, k, m;
		{
			exact_buffer b(text);
			auto v = b.sv();
			add(f, where(utki::trim_front(v), b.c(), b.len));
			add(k, where(utki::trim_back(v), b.c(), b.len));
			add(m, where(utki::trim(v), b.c(), b.len));
		}
		add(f, where(utki::trim_front(text), text.data(), text.size()));
		add(k, where(utki::trim_back(text), text.data(), text.size()));
		add(m, where(utki::trim(text), text.data(), text.size()));
		if (!has_zero(text)) {
			exact_buffer z(text.c_str(), text.size() + 1);
			add(f, where(utki::trim_front(z.c()), z.c(), text.size()));
			add(k, where(utki::trim_back(z.c()), z.c(), text.size()));
			add(m, where(utki::trim(z.c()), z.c(), text.size()));
		}
		bool ascii = true;
		for (char c : text) {
			ascii = ascii && uint8_t(c) < 0x80;
		}
		if (ascii) {
			auto w = widen(text);
			add(f, where(utki::trim_front(w), w.data(), w.size()));
			add(k, where(utki::trim_back(w), w.data(), w.size()));
			add(m, where(utki::trim(w), w.data(), w.size()));
			add(m, where(utki::trim(std::wstring_view(w)), w.data(), w.size()));
		}
		ev("trim").v("t", text).v("f", f).v("k", k).v("m", m);
	} else if (op == "fix") { // fix text other
		auto text = unhex_str(t[1]);
		auto other = unhex_str(t[2]);
		exact_buffer a(text), b(other);
		ev("fix")
			.v("t", text)
			.v("o", other)
			.v("starts", utki::starts_with(a.sv(), b.sv()))
			.v("ends", utki::ends_with(a.sv(), b.sv()));
	} else if (op == "indent") {
		auto d = unsigned(unum(t[1])), s = unsigned(unum(t[2]));
		std::string r;
		bool dflt = t.size() > 3;
		auto o = outcome([&]() {
			r = dflt ? utki::make_indentation(d) : utki::make_indentation(d, s);
		});
		bool same = true;
		for (char c : r) {
			same = same && c == r[0];
		}
		// the number of characters in two parts, depth and size likewise (TLC's numbers have 32 bits)
		ev("indent")
			.v("d", std::vector<unsigned>{d >> 16, d & 0xffff})
			.v("s", std::vector<unsigned>{s >> 16, s & 0xffff})
			.s_("r", o == "ok" ? "ok" : "error")
			.v("n", (unsigned long long)(r.size()) > 2000000000 ? 2000000000ull : r.size())
			.v("same", same)
			.v("c", r.empty() ? 0 : int(uint8_t(r[0])));
	} else if (op == "fmt") { // fmt kind args: make_string with one of the formats known to the specification
		auto k = num(t[1]);
		std::vector<std::string> res;
		std::vector<std::string> ss;
		std::vector<int> ns;
		for (size_t i = 2; i < t.size(); ++i) {
			if (t[i][0] == '#') {
				ns.push_back(int(num(t[i].substr(1))));
			} else if (t[i][0] == '*') { // a run of characters: *code*count
				auto p = t[i].find('*', 1);
				ss.emplace_back(size_t(num(t[i].substr(p + 1))), char(num(t[i].substr(1, p - 1))));
			} else {
				ss.push_back(unhex_str(t[i]));
			}
		}
		auto S = [&](size_t i) {
			return ss.at(i).c_str();
		};
		auto N = [&](size_t i) {
			return ns.at(i);
		};
#define BOTH(...) \
	add(res, utki::make_string(__VA_ARGS__)); \
	add(res, va(__VA_ARGS__));
		switch (k) {
			case 1:
				BOTH("%s", S(0))
				break;
			case 2:
				BOTH("%s %d %s", S(0), N(0), S(1))
				break;
			case 3:
				BOTH("%d%u%x%c%%", N(0), unsigned(N(1)), unsigned(N(2)), N(3))
				break;
			case 4:
				BOTH("%*d|%-*d|%0*d", N(0), N(1), N(2), N(3), N(4), N(5))
				break;
			case 5:
				BOTH("plain text, no arguments")
				break;
			case 6:
				BOTH("<%.*s>", N(0), S(0))
				break;
			case 7:
				BOTH(
					"%s%d%s%d%s%d%s%d%s%d%s%d",
					S(0),
					N(0),
					S(1),
					N(1),
					S(2),
					N(2),
					S(3),
					N(3),
					S(4),
					N(4),
					S(5),
					N(5)
				)
				break;
			case 8:
				BOTH("%.1f/%d/%.1f/%s/%.1f", N(0) / 2.0, N(1), N(2) / 2.0, S(0), N(3) / 2.0)
				break;
			case 9:
				BOTH("%lld%c%s%hhu", (long long)(N(0)), N(1), S(0), (unsigned char)(N(2)))
				break;
			case 10: {
				auto e = std::string();
				add(res, utki::make_string("%s", e.c_str()));
				break;
			}
			default:
				bad_script("format");
		}
		ev("fmt").v("k", k).v("ss", ss).v("ns", ns).v("res", res);
	} else if (op == "printf") { // printf format args: i123 l123 s6162 d<mantissa>:<exponent of two> dinf dnan
		auto format = unhex_str(t[1]);
		std::vector<arg> args;
		std::string shown = "[";
		for (size_t i = 2; i < t.size(); ++i) {
			arg a{t[i][0], 0, {}, 0};
			auto rest = t[i].substr(1);
			shown += i > 2 ? "," : "";
			if (a.type == 's') {
				a.s = unhex_str(rest);
				shown += "{\"t\":\"s\",\"b\":" + bytes_of(a.s) + "}";
			} else if (a.type == 'd') {
				bool neg = rest[0] == '-';
				if (neg) {
					rest = rest.substr(1);
				}
				std::string special, m = "[]";
				int e = 0;
				if (rest == "inf" || rest == "nan") {
					special = rest;
					a.d = rest == "inf" ? HUGE_VAL : std::nan("");
				} else {
					auto colon = rest.find(':');
					auto mantissa = unum(rest.substr(0, colon));
					e = int(num(rest.substr(colon + 1)));
					a.d = std::ldexp(double(mantissa), e);
					m.clear();
					for (auto left = mantissa; left != 0; left >>= 15) {
						m += (m.empty() ? "[" : ",") + std::to_string(left & 0x7fff);
					}
					m = m.empty() ? "[]" : m + "]";
				}
				a.d = std::copysign(a.d, neg ? -1 : 1);
				shown += "{\"t\":\"d\",\"neg\":" + std::string(neg ? "true" : "false") + ",\"special\":\"" + special + "\",\"m\":" + m + ",\"e\":" + std::to_string(e) + "}";
			} else {
				a.n = num(rest);
				shown += "{\"t\":\"i\",\"w\":[";
				for (int k = 0; k < 64; k += 16) {
					shown += (k ? "," : "") + std::to_string(((unsigned long long)(a.n) >> k) & 0xffff);
				}
				shown += "]}";
			}
			args.push_back(a);
		}
		std::vector<std::string> res;
		auto r = outcome([&]() {
			format_with(res, format.c_str(), args);
		});
		ev("printf").v("fmt", format).raw("args", shown + "]").s_("r", r).v("res", res);
	} else if (op == "wprintf") { // wprintf format width code*: a width and a wide text
		auto format = unhex_str(t[1]);
		auto width = int(num(t[2]));
		std::wstring w;
		std::vector<unsigned> codes;
		for (size_t i = 3; i < t.size(); ++i) {
			codes.push_back(unsigned(unum(t[i])));
			w.push_back(wchar_t(codes.back()));
		}
		std::string shown = "[{\"t\":\"i\",\"w\":[";
		for (int k = 0; k < 64; k += 16) {
			shown += (k ? "," : "") + std::to_string(((unsigned long long)((long long)(width)) >> k) & 0xffff);
		}
		shown += "]},{\"t\":\"w\",\"b\":[";
		for (size_t i = 0; i < codes.size(); ++i) {
			shown += (i ? "," : "") + std::to_string(codes[i]);
		}
		std::vector<std::string> res;
		std::string r[2];
		r[0] = outcome([&]() {
			res.push_back(formatted(format.c_str(), width, w.c_str()));
		});
		r[1] = outcome([&]() {
			res.push_back(va(format.c_str(), width, w.c_str()));
		});
		ev("printf").v("fmt", format).raw("args", shown + "]}]").s_("r", r[0] == r[1] ? r[0] : "differ").v("res", res);
	} else {
		bad_script(op);
	}
}
} // namespace

int main()
{
	return run([]() {}, exec);
}
