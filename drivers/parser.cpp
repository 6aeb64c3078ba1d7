// C08, C09, C10: string_parser, numbers
#include <utki/string.hpp>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::unique_ptr<exact_buffer> buf;
thread_local std::unique_ptr<utki::string_parser> p;

// position of a view in the text, -1 if it is not inside; an empty view has no specified position
long long at(std::string_view v)
{
	if (v.empty()) {
		return -2;
	}
	if (v.data() < buf->c() || v.data() + v.size() > buf->c() + buf->len) {
		return -1;
	}
	return v.data() - buf->c();
}

void done(const std::string& op, const std::vector<int>& a, const std::string& r, int c, std::string_view v)
{
	auto rest = p->get_view();
	ev(op)
		.v("a", a)
		.s_("r", r)
		.v("c", c)
		.v("off", at(v))
		.v("len", v.size())
		.v("pos", at(rest))
		.v("left", rest.size())
		.v("size", sat(p->size()))
		.v("empty", p->empty());
}

template <class T>
void to_text(const std::string& type, const std::string& val, int base)
{
	T v;
	bool neg = false;
	uint64_t mag;
	if constexpr (std::is_signed_v<T>) {
		auto x = num(val);
		v = T(x);
		if ((long long)(v) != x) {
			return; // not a value of this type
		}
		neg = x < 0;
		mag = neg ? uint64_t(0) - uint64_t(x) : uint64_t(x);
	} else {
		auto x = unum(val);
		v = T(x);
		if ((unsigned long long)(v) != x) {
			return;
		}
		mag = x;
	}
	std::string text;
	auto b = base == 2 ? utki::integer_base::bin :
		base == 8	   ? utki::integer_base::oct :
		base == 10	   ? utki::integer_base::dec :
						 utki::integer_base::hex;
	text = utki::to_string(v, b);
	std::vector<unsigned> limbs;
	for (int i = 0; i < 4; ++i) {
		limbs.push_back(unsigned((mag >> (16 * i)) & 0xffff));
	}
	ev("tostr")
		.v("bits", sizeof(T) * 8)
		.v("signed", std::is_signed_v<T>)
		.v("base", base)
		.v("neg", neg)
		.v("mag", limbs)
		.v("res", text);
	if (base == 10) {
		ev("tostr")
			.v("bits", sizeof(T) * 8)
			.v("signed", std::is_signed_v<T>)
			.v("base", base)
			.v("neg", neg)
			.v("mag", limbs)
			.v("res", utki::to_string(v));
	}
}

template <class T>
void read_num(const std::string& text)
{
	exact_buffer b(text);
	utki::string_parser q(b.sv());
	T v = 0;
	auto r = outcome([&]() {
		v = q.read_number<T>();
	});
	bool neg = v < 0;
	uint64_t mag = neg ? uint64_t(0) - uint64_t(v) : uint64_t(v);
	std::vector<unsigned> limbs;
	for (int i = 0; i < 4; ++i) {
		limbs.push_back(unsigned((mag >> (16 * i)) & 0xffff));
	}
	auto rest = q.get_view();
	bool inside = rest.empty() || (rest.data() >= b.c() && rest.data() + rest.size() == b.c() + b.len);
	ev("readnum")
		.v("bits", sizeof(T) * 8)
		.v("signed", std::is_signed_v<T>)
		.v("t", text)
		.s_("r", r)
		.v("neg", neg)
		.v("mag", limbs)
		.v("left", rest.size())
		.v("inside", inside);
}

template <class T>
void read_float(const std::string& name, const std::string& text)
{
	exact_buffer b(text);
	auto emit = [&](const char* via, const std::string& r, T v, size_t left, bool inside, const char* format = "general") {
		uint64_t bits = 0;
		bool exact = true;
		size_t n = sizeof(T);
		if constexpr (std::is_same_v<T, long double>) {
			auto d = double(v);
			exact = (long double)(d) == v || v != v;
			n = 8;
			std::memcpy(&bits, &d, 8);
		} else {
			std::memcpy(&bits, &v, sizeof(v));
		}
		ev("readfloat")
			.s_("type", name)
			.s_("via", via)
			.s_("format", format)
			.v("t", text)
			.s_("r", r)
			.bytes("bits", bits, n)
			.v("exact", exact)
			.v("left", left)
			.v("inside", inside);
	};
	{
		utki::string_parser q(b.sv());
		T v = 0;
		auto r = outcome([&]() {
			v = q.read_number<T>();
		});
		auto rest = q.get_view();
		bool inside = rest.empty() || (rest.data() >= b.c() && rest.data() + rest.size() == b.c() + b.len);
		emit("parser", r, v, rest.size(), inside);
	}
	for (auto format : {"default", "general", "fixed", "scientific", "hex"}) {
		T v = 0;
		auto f = std::string(format);
		auto res = f == "default" ?
			utki::from_chars(b.c(), b.c() + b.len, v) :
			utki::from_chars(
				b.c(),
				b.c() + b.len,
				v,
				f == "general"	 ? utki::chars_format::general :
					f == "fixed" ? utki::chars_format::fixed :
					f == "hex"	 ? utki::chars_format::hex :
								   utki::chars_format::scientific
			);
		auto r = res.ec == std::errc() ? "ok" : res.ec == std::errc::invalid_argument ? "invalid_argument" : "out_of_range";
		bool inside = res.ptr >= b.c() && res.ptr <= b.c() + b.len;
		emit("from_chars", r, v, inside ? size_t(b.c() + b.len - res.ptr) : 0, inside, format);
	}
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "text") {
		auto s = unhex_str(t[1]);
		p.reset();
		buf = std::make_unique<exact_buffer>(s);
		p = std::make_unique<utki::string_parser>(buf->sv());
		ev("text").v("t", s);
		return;
	}
	if (op == "isspace") {
		auto c = unhex(t[1]).at(0);
		ev("isspace").v("c", int(c)).v("res", utki::string_parser::is_space(char(c)));
		return;
	}
	if (op == "tostr") { // tostr type base value
		const auto& ty = t[1];
		int base = int(num(t[2]));
		const auto& v = t[3];
		ty == "i8"		  ? to_text<int8_t>(ty, v, base) :
			ty == "u8"	  ? to_text<uint8_t>(ty, v, base) :
			ty == "i16"	  ? to_text<int16_t>(ty, v, base) :
			ty == "u16"	  ? to_text<uint16_t>(ty, v, base) :
			ty == "i32"	  ? to_text<int32_t>(ty, v, base) :
			ty == "u32"	  ? to_text<uint32_t>(ty, v, base) :
			ty == "i64"	  ? to_text<int64_t>(ty, v, base) :
			ty == "u64"	  ? to_text<uint64_t>(ty, v, base) :
			ty == "ll"	  ? to_text<long long>(ty, v, base) :
			ty == "ull"	  ? to_text<unsigned long long>(ty, v, base) :
			ty == "c"	  ? to_text<char>(ty, v, base) :
							bad_script(ty);
		return;
	}
	if (op == "readnum") { // readnum type text
		const auto& ty = t[1];
		auto s = unhex_str(t[2]);
		ty == "i8"		  ? read_num<int8_t>(s) :
			ty == "u8"	  ? read_num<uint8_t>(s) :
			ty == "i16"	  ? read_num<int16_t>(s) :
			ty == "u16"	  ? read_num<uint16_t>(s) :
			ty == "i32"	  ? read_num<int32_t>(s) :
			ty == "u32"	  ? read_num<uint32_t>(s) :
			ty == "i64"	  ? read_num<int64_t>(s) :
			ty == "u64"	  ? read_num<uint64_t>(s) :
			ty == "ll"	  ? read_num<long long>(s) :
			ty == "ull"	  ? read_num<unsigned long long>(s) :
			ty == "c"	  ? read_num<char>(s) :
							bad_script(ty);
		return;
	}
	if (op == "readfloat") { // readfloat type text
		auto s = unhex_str(t[2]);
		t[1] == "f" ? read_float<float>("f", s) : t[1] == "d" ? read_float<double>("d", s) : read_float<long double>("l", s);
		return;
	}
	if (!p) {
		bad_script("no text");
	}
	std::vector<int> a;
	if (t.size() > 1 && op != "chars" && op != "peekn") {
		for (auto c : unhex(t[1])) {
			a.push_back(c);
		}
	}
	int c = -1;
	std::string_view v;
	std::string r = "ok";
	if (op == "ws") {
		p->skip_whitespaces();
	} else if (op == "wsc") {
		p->skip_whitespaces_and_comma();
	} else if (op == "until") {
		p->skip_inclusive_until(char(a.at(0)));
	} else if (op == "oneof") {
		std::string cs(a.begin(), a.end());
		exact_buffer x(cs);
		c = int(uint8_t(p->skip_inclusive_until_one_of(utki::span<const char>(x.c(), x.len))));
	} else if (op == "word") {
		v = p->read_word();
	} else if (op == "wordu") {
		v = p->read_word_until(char(a.at(0)));
	} else if (op == "ch") {
		r = outcome([&]() {
			c = int(uint8_t(p->read_char()));
		});
	} else if (op == "peek") {
		r = outcome([&]() {
			c = int(uint8_t(p->peek_char()));
		});
	} else if (op == "peekn") {
		auto n = unum(t[1]);
		a.push_back(int(sat(n)));
		r = outcome([&]() {
			c = int(uint8_t(p->peek_char(n)));
		});
	} else if (op == "chars") {
		auto n = unum(t[1]);
		a.push_back(int(sat(n)));
		v = p->read_chars(n);
	} else if (op == "charsu") {
		v = p->read_chars_until(char(a.at(0)));
	} else {
		bad_script(op);
	}
	done(op, a, r, c, v);
}
} // namespace

int main()
{
	return run(
		[]() {
			p.reset();
			buf.reset();
		},
		exec
	);
}
