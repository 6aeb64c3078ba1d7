// C01, C02: UTF-8
#include <utki/unicode.hpp>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::u32string cps; // code points appended so far

using chars = std::vector<long long>;

chars conv(const std::u32string& s)
{
	chars r;
	for (auto c : s) {
		r.push_back(c <= 0x7fffffff ? (long long)(c) : -1);
	}
	return r;
}

chars iterate(utki::utf8_iterator i, size_t limit)
{
	chars r;
	for (; !i.is_end() && r.size() <= limit; ++i) {
		auto c = i.character();
		r.push_back(c <= 0x7fffffff ? (long long)(c) : -1);
	}
	return r;
}

void add(std::vector<chars>& all, chars c)
{
	for (auto& a : all) {
		if (a == c) {
			return;
		}
	}
	all.push_back(std::move(c));
}

// decode text in every way the API offers, distinct results are recorded
void decode(const std::vector<uint8_t>& text)
{
	{
		std::vector<chars> res;
		exact_buffer b(text);
		add(res, iterate(utki::utf8_iterator(b.sv()), text.size()));
		add(res, iterate(utki::utf8_iterator(utki::span<const uint8_t>(b.p, b.len)), text.size()));
		add(res, conv(utki::to_utf32(b.sv())));
		add(res, conv(utki::to_utf32(utki::span<const uint8_t>(b.p, b.len))));
		add(res, conv(utki::to_utf32(utki::span<const char>(b.c(), b.len))));
		add(res, conv(utki::to_utf32(utki::utf8_iterator(b.sv()))));
		{
			// a default constructed iterator is at the end, copies are independent
			utki::utf8_iterator i;
			i = utki::utf8_iterator(b.sv());
			auto j = i;
			if (!j.is_end()) {
				++j;
			}
			add(res, iterate(i, text.size()));
		}
		ev("dec").v("t", text).v("res", res);
	}
	{
		auto t = text;
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == 0) {
				t.resize(i);
				break;
			}
		}
		auto z = t;
		z.push_back(0);
		std::vector<chars> res;
		exact_buffer b(z);
		add(res, iterate(utki::utf8_iterator(b.c()), z.size()));
		add(res, conv(utki::to_utf32(b.c())));
		add(res, conv(utki::to_utf32(std::string(b.c()))));
		add(res, conv(utki::to_utf32(utki::utf8_iterator(b.c()))));
		ev("dec").v("t", t).v("res", res);
	}
}

std::vector<uint8_t> enc(char32_t c)
{
	auto a = utki::to_utf8(c);
	static_assert(std::tuple_size_v<decltype(a)> == 7);
	std::vector<uint8_t> r;
	for (char x : a) {
		if (x == 0) {
			return r;
		}
		r.push_back(uint8_t(x));
	}
	r.push_back(0); // no terminator
	return r;
}

void enc_event(char32_t c)
{
	ev("enc").v("c", (long long)(c)).v("b", enc(c));
}

void exec(const tokens& t);

void exec(const tokens& t)
{
	if (t[0] == "enc") {
		enc_event(char32_t(unum(t[1])));
	} else if (t[0] == "app") { // append code points, encode the whole string, decode the result
		for (size_t i = 1; i < t.size(); ++i) {
			enc_event(char32_t(unum(t[i])));
			cps.push_back(char32_t(unum(t[i])));
		}
		auto s = utki::to_utf8(cps);
		std::unique_ptr<char32_t[]> b(new char32_t[cps.size()]);
		std::copy(cps.begin(), cps.end(), b.get());
		auto s2 = utki::to_utf8(utki::span<const char32_t>(b.get(), cps.size()));
		ev("encs").v("cs", conv(cps)).v("b", s);
		ev("encs").v("cs", conv(cps)).v("b", s2);
		std::vector<uint8_t> v(s.begin(), s.end());
		decode(v);
	} else if (t[0] == "rapp") { // the same several times, observed once
		for (long long n = num(t[1]); n > 0; --n) {
			for (size_t i = 2; i < t.size(); ++i) {
				cps.push_back(char32_t(unum(t[i])));
			}
		}
		exec({"app"});
	} else if (t[0] == "dec") {
		decode(unhex(t[1]));
	} else if (t[0] == "scan") {
		// scan lo hi n (const shift mask)*n: compare every code point in lo..hi with the proposed layout and decode it back
		alarm(600);
		uint32_t lo = uint32_t(unum(t[1])), hi = uint32_t(unum(t[2])), step = uint32_t(unum(t[3]));
		auto n = size_t(num(t[4]));
		std::vector<std::vector<unsigned>> lay;
		for (size_t i = 0; i < n; ++i) {
			lay.push_back({unsigned(num(t[5 + 3 * i])), unsigned(num(t[6 + 3 * i])), unsigned(num(t[7 + 3 * i]))});
		}
		unsigned bad = 0;
		long long count = 0;
		for (uint64_t c = lo; c <= hi; c += step) {
			++count;
			auto a = utki::to_utf8(char32_t(c));
			bool ok = a[n] == 0;
			for (size_t i = 0; i < n; ++i) {
				ok = ok && uint8_t(a[i]) == (lay[i][0] | ((c >> lay[i][1]) & lay[i][2]));
			}
			if (!ok) {
				if (bad++ == 0) {
					enc_event(char32_t(c));
				}
				continue;
			}
			utki::utf8_iterator i(std::string_view(a.data(), n));
			utki::utf8_iterator z(a.data());
			bool same = i.character() == char32_t(c) && z.character() == char32_t(c);
			++i;
			++z;
			if (!same || !i.is_end() || !z.is_end()) {
				if (bad++ == 0) {
					decode(std::vector<uint8_t>(a.begin(), a.begin() + n));
				}
			}
		}
		ev("scan").v("lo", (long long)lo).v("hi", (long long)hi).v("n", n).v("lay", lay).v("count", sat(count)).v("bad", bad);
	} else {
		bad_script(t[0]);
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			cps.clear();
		},
		exec
	);
}
