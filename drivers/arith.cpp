// C31: utki::sign, pow2..pow6, deg_to_rad, rad_to_deg and constants
#include <utki/math.hpp>
#include <utki/utility.hpp>

#include <cmath>
#include <limits>

#include "common.hpp"

using namespace vf;

namespace {
std::string digits(std::string s)
{
	std::string r;
	for (char c : s) {
		if (c == '-') {
			continue;
		}
		r += (r.empty() ? "" : ",") + std::string(1, c);
	}
	return "[" + r + "]";
}

// an integer: {"neg":..,"d":[digits]}
template <class T>
std::string integer(T v)
{
	auto s = std::to_string(v);
	return std::string("{\"neg\":") + (s[0] == '-' ? "true" : "false") + ",\"d\":" + digits(s) + "}";
}

// a floating point number: {"neg":..,"d":[digits of odd integer],"e":binary exponent}
template <class T>
std::string binary(T v)
{
	if (!std::isfinite(v)) {
		// no number
		return "{\"nan\":true}";
	}
	bool neg = std::signbit(v);
	int e = 0;
	T m = std::frexp(neg ? -v : v, &e);
	unsigned long long n = 0;
	if (v != 0) {
		n = (unsigned long long)(std::ldexp(m, 64));
		e -= 64;
		while (n % 2 == 0) {
			n /= 2;
			++e;
		}
	} else {
		e = 0;
		neg = false;
	}
	return std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"d\":" + digits(std::to_string(n)) + ",\"e\":" + std::to_string(e) + "}";
}

template <class T>
constexpr T power(T x, int k)
{
	switch (k) {
		case 2:
			return utki::pow2(x);
		case 3:
			return utki::pow3(x);
		case 4:
			return utki::pow4(x);
		case 5:
			return utki::pow5(x);
		default:
			return utki::pow6(x);
	}
}

template <class T>
void put_power(T x, int k, T r)
{
	if constexpr (std::is_integral_v<T>) {
		ev("pow").raw("x", integer(x)).v("k", k).raw("r", integer(r));
	}
}

template <class T>
void on_integer(const tokens& t)
{
	T x = std::is_signed_v<T> ? T(num(t.at(2))) : T(unum(t.at(2)));
	if (t[0] == "sign") {
		T r = utki::sign(x);
		ev("sign").raw("x", integer(x)).v("r", (long long)(r));
		return;
	}
	int k = int(num(t.at(3)));
	put_power(x, k, power(x, k));
}

template <class T>
T parse(const tokens& t, size_t at)
{
	// sign, integer, binary exponent
	T v = std::ldexp(T(unum(t.at(at + 1))), int(num(t.at(at + 2))));
	return t.at(at) == "-" ? -v : v;
}

template <class T>
constexpr int precision = std::numeric_limits<T>::digits;

template <class T>
void on_real(const tokens& t)
{
	T x = parse<T>(t, 2);
	// the constant pi is a double
	constexpr int p = std::min(precision<T>, precision<double>) - 4;
	if (t[0] == "sign") {
		T r = utki::sign(x);
		ev("sign").raw("x", binary(x)).v("r", (long long)(r) == r ? (long long)(r) : 99ll);
	} else if (t[0] == "pow" || t[0] == "exact") {
		int k = int(num(t.at(5)));
		T r = power(x, k);
		ev("powf").raw("x", binary(x)).v("k", k).raw("r", binary(r)).v("exact", t[0] == "exact").v("p", precision<T> - 4);
	} else if (t[0] == "deg") {
		T r = utki::deg_to_rad(x);
		ev("deg").raw("x", binary(x)).raw("r", binary(r)).raw("back", binary(utki::rad_to_deg(r))).v("p", p);
	} else if (t[0] == "rad") {
		T r = utki::rad_to_deg(x);
		ev("rad").raw("x", binary(x)).raw("r", binary(r)).raw("back", binary(utki::deg_to_rad(r))).v("p", p);
	} else {
		bad_script(t[0]);
	}
}

// constant evaluation
template <class T, long long x>
void constants()
{
	constexpr T s = utki::sign(T(x));
	ev("sign").raw("x", integer(T(x))).v("r", (long long)(s));
	constexpr T a = utki::pow2(T(x)), b = utki::pow3(T(x)), c = utki::pow4(T(x)), d = utki::pow5(T(x)), e = utki::pow6(T(x));
	put_power(T(x), 2, a);
	put_power(T(x), 3, b);
	put_power(T(x), 4, c);
	put_power(T(x), 5, d);
	put_power(T(x), 6, e);
}

template <class T>
void real_constants()
{
	constexpr T x = T(12.5), a = utki::deg_to_rad(x), b = utki::rad_to_deg(a);
	ev("deg").raw("x", binary(x)).raw("r", binary(a)).raw("back", binary(b)).v("p", std::min(precision<T>, precision<double>) - 4);
	constexpr T c = utki::pow5(x), d = utki::sign(-x);
	ev("powf").raw("x", binary(x)).v("k", 5).raw("r", binary(c)).v("exact", precision<T> > 24).v("p", precision<T> - 4);
	ev("sign").raw("x", binary(-x)).v("r", (long long)(d));
}

void exec(const tokens& t)
{
	if (t[0] == "constants") {
		ev("constant").s_("name", "pi").raw("x", binary(double(utki::pi)));
		ev("constant").s_("name", "two_pi").raw("x", binary(double(utki::two_pi)));
		ev("constant").s_("name", "pi_degrees").raw("x", binary(double(utki::pi_degrees)));
		ev("constant").s_("name", "log_2").raw("x", binary(double(utki::log_2)));
		ev("constant").s_("name", "cm_per_inch").raw("x", binary(double(utki::cm_per_inch)));
		ev("constant").s_("name", "mm_per_inch").raw("x", binary(double(utki::mm_per_inch)));
		ev("constant").s_("name", "kilobyte").raw("x", binary(double(utki::kilobyte)));
		ev("constant").s_("name", "hundred_percent").raw("x", binary(double(utki::hundred_percent)));
		constants<int, 31>();
		constants<int, -31>();
		constants<int8_t, -2>();
		constants<uint8_t, 2>();
		constants<int16_t, -5>();
		constants<long long, -1448>();
		constants<unsigned long long, 1625>();
		real_constants<float>();
		real_constants<double>();
		real_constants<long double>();
		return;
	}
	const auto& y = t.at(1);
	if (y == "i8") {
		on_integer<int8_t>(t);
	} else if (y == "i16") {
		on_integer<int16_t>(t);
	} else if (y == "i32") {
		on_integer<int32_t>(t);
	} else if (y == "i64") {
		on_integer<int64_t>(t);
	} else if (y == "u8") {
		on_integer<uint8_t>(t);
	} else if (y == "u16") {
		on_integer<uint16_t>(t);
	} else if (y == "u32") {
		on_integer<uint32_t>(t);
	} else if (y == "u64") {
		on_integer<uint64_t>(t);
	} else if (y == "f") {
		on_real<float>(t);
	} else if (y == "d") {
		on_real<double>(t);
	} else if (y == "l") {
		on_real<long double>(t);
	} else {
		bad_script(y);
	}
}
} // namespace

int main()
{
	return run([]() {}, exec);
}
