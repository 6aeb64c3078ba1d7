// Shared by all drivers: script reader and trace writer.
// A driver reads commands from stdin, one per line, calls the public API of utki and prints one JSON event per call.
#pragma once

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <stdexcept>
#include <locale>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

#include <unistd.h>

namespace vf {

using tokens = std::vector<std::string>;

[[noreturn]] inline void bad_script(const std::string& msg)
{
	std::fprintf(stderr, "bad script: %s\n", msg.c_str());
	std::_Exit(99);
}

inline std::vector<uint8_t> unhex(const std::string& s)
{
	std::vector<uint8_t> r;
	if (s == "-") {
		return r;
	}
	// pieces separated by '+', each optionally repeated: 6162*1000+63
	if (auto plus = s.find('+'); plus != std::string::npos) {
		r = unhex(s.substr(0, plus));
		auto rest = unhex(s.substr(plus + 1));
		r.insert(r.end(), rest.begin(), rest.end());
		return r;
	}
	if (auto star = s.find('*'); star != std::string::npos) {
		auto unit = unhex(s.substr(0, star));
		for (long n = std::strtol(s.c_str() + star + 1, nullptr, 10); n > 0; --n) {
			r.insert(r.end(), unit.begin(), unit.end());
		}
		return r;
	}
	if (s.size() % 2) {
		bad_script("hex " + s);
	}
	auto v = [](char c) {
		return c <= '9' ? c - '0' : c - 'a' + 10;
	};
	for (size_t i = 0; i < s.size(); i += 2) {
		r.push_back(uint8_t(v(s[i]) * 16 + v(s[i + 1])));
	}
	return r;
}

inline std::string unhex_str(const std::string& s)
{
	auto b = unhex(s);
	return std::string(b.begin(), b.end());
}

inline long long num(const std::string& s)
{
	char* e = nullptr;
	auto v = std::strtoll(s.c_str(), &e, 10);
	if (!e || *e || s.empty()) {
		bad_script("number " + s);
	}
	return v;
}

inline unsigned long long unum(const std::string& s)
{
	char* e = nullptr;
	auto v = std::strtoull(s.c_str(), &e, 10);
	if (!e || *e || s.empty()) {
		bad_script("number " + s);
	}
	return v;
}

// a copy of some bytes in a heap block of exactly that size, optionally at an odd address
class exact_buffer
{
	std::unique_ptr<uint8_t[]> block;

public:
	size_t len;
	uint8_t* p;

	exact_buffer(const void* d, size_t n, size_t shift = 0) :
		block(new uint8_t[n + shift]),
		len(n),
		p(block.get() + shift)
	{
		if (n) {
			std::memcpy(this->p, d, n);
		}
	}

	template <class C, class = decltype(std::declval<const C&>().data())>
	explicit exact_buffer(const C& c, size_t shift = 0) :
		exact_buffer(c.data(), c.size(), shift)
	{}

	const char* c() const
	{
		return reinterpret_cast<const char*>(this->p);
	}

	std::string_view sv() const
	{
		return std::string_view(this->c(), this->len);
	}
};

// where events go, the standard output by default
inline thread_local std::string* sink = nullptr;

class ev
{
	std::string s;

	void key(const char* k)
	{
		this->s += ",\"";
		this->s += k;
		this->s += "\":";
	}

	template <class T>
	void put(const T& v)
	{
		if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
			// text as a sequence of character codes
			this->s += '[';
			bool first = true;
			for (char c : v) {
				if (!first) {
					this->s += ',';
				}
				first = false;
				this->s += std::to_string(unsigned(uint8_t(c)));
			}
			this->s += ']';
		} else if constexpr (std::is_same_v<T, bool>) {
			this->s += v ? "true" : "false";
		} else if constexpr (std::is_integral_v<T>) {
			this->s += std::to_string(v);
		} else {
			this->s += '[';
			bool first = true;
			for (const auto& x : v) {
				if (!first) {
					this->s += ',';
				}
				first = false;
				this->put(x);
			}
			this->s += ']';
		}
	}

public:
	explicit ev(const std::string& op) :
		s("{\"op\":\"" + op + "\"")
	{}

	ev(const ev&) = delete;

	// plain identifier-like text
	ev& s_(const char* k, const std::string& v)
	{
		this->key(k);
		this->s += '"' + v + '"';
		return *this;
	}

	// integers, booleans, texts (as character codes) and (nested) sequences of them
	template <class T>
	ev& v(const char* k, const T& val)
	{
		this->key(k);
		this->put(val);
		return *this;
	}

	// a wide unsigned number as its bytes, least significant first
	template <class T>
	ev& bytes(const char* k, T val, size_t n = sizeof(T))
	{
		std::vector<unsigned> b;
		for (size_t i = 0; i < n; ++i) {
			b.push_back(unsigned(val & 0xff));
			val = T(sizeof(T) > 1 ? val >> 8 : 0);
		}
		return this->v(k, b);
	}

	// raw JSON
	ev& raw(const char* k, const std::string& j)
	{
		this->key(k);
		this->s += j;
		return *this;
	}

	~ev()
	{
		this->s += "}\n";
		if (sink) {
			*sink += this->s;
			return;
		}
		std::fwrite(this->s.data(), 1, this->s.size(), stdout);
		std::fflush(stdout);
	}
};

// saturate to TLC's integer range
inline long long sat(unsigned long long v)
{
	return v > 2000000000ull ? 2000000000ll : (long long)(v);
}

// calls f, returns the kind of outcome
template <class F>
std::string outcome(F&& f)
{
	try {
		f();
		return "ok";
	} catch (std::invalid_argument&) {
		return "invalid_argument";
	} catch (std::out_of_range&) {
		return "out_of_range";
	} catch (std::logic_error&) {
		return "logic_error";
	} catch (std::bad_cast&) {
		return "bad_cast";
	} catch (std::exception&) {
		return "exception";
	} catch (...) {
		return "other";
	}
}

constexpr unsigned command_seconds = 30;

inline tokens split(const std::string& line)
{
	tokens t;
	size_t i = 0;
	while (i < line.size()) {
		auto j = line.find(' ', i);
		if (j == std::string::npos) {
			j = line.size();
		}
		if (j > i) {
			t.push_back(line.substr(i, j - i));
		}
		i = j + 1;
	}
	return t;
}

// The cases are dealt to several threads which work at the same time, each on objects of its own.
// The events of each thread are those of a run of its own.
inline void run_threads(unsigned n, const std::function<void()>& reset, const std::function<void(const tokens&)>& exec)
{
	std::vector<std::vector<tokens>> work(n);
	std::string line;
	size_t cases = 0;
	while (std::getline(std::cin, line)) {
		auto t = split(line);
		if (t.empty()) {
			continue;
		}
		if (t[0] == "case") {
			++cases;
		}
		work[cases % n].push_back(std::move(t));
	}
	alarm(300);
	std::vector<std::string> outputs(n);
	std::atomic<unsigned> ready{0};
	std::vector<std::thread> threads;
	for (unsigned i = 0; i < n; ++i) {
		threads.emplace_back([&, i]() {
			sink = &outputs[i];
			++ready;
			while (ready != n) {
				std::this_thread::yield();
			}
			for (const auto& t : work[i]) {
				if (t[0] == "case") {
					reset();
					ev("reset").v("case", num(t[1]));
					continue;
				}
				exec(t);
			}
			reset();
		});
	}
	for (auto& t : threads) {
		t.join();
	}
	for (const auto& o : outputs) {
		std::fwrite(o.data(), 1, o.size(), stdout);
	}
	ev("end");
}

// a locale with unusual ideas of numbers and white space
struct odd_numbers : public std::numpunct<char> {
	char do_decimal_point() const override
	{
		return ',';
	}

	char do_thousands_sep() const override
	{
		return '1';
	}

	std::string do_grouping() const override
	{
		return "\1";
	}
};

struct odd_characters : public std::ctype<char> {
	static const mask* table()
	{
		static std::vector<mask> t(classic_table(), classic_table() + table_size);
		for (unsigned char c : {' ', '\t', '\n', '\r', '\v', '\f'}) {
			t[c] = alpha;
		}
		for (unsigned char c : {'a', 'b', 'c', 'q', 'x', 'z', ',', '.', '0', '1', '-'}) {
			t[c] = space;
		}
		return t.data();
	}

	odd_characters() :
		std::ctype<char>(table())
	{}
};

struct odd_wide_characters : public std::ctype<wchar_t> {
	bool do_is(mask m, wchar_t c) const override
	{
		bool blank = c == L'a' || c == L'b' || c == L'0' || c == L'x';
		return (m & space) ? blank : std::ctype<wchar_t>::do_is(m, c);
	}
};

// main loop
inline int run(const std::function<void()>& reset, const std::function<void(const tokens&)>& exec)
{
	static char obuf[1 << 16];
	std::setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
	if (std::getenv("VF_LOCALE")) {
		std::locale l(std::locale::classic(), new odd_numbers);
		l = std::locale(l, new odd_characters);
		l = std::locale(l, new odd_wide_characters);
		std::locale::global(l);
	}
	if (const char* n = std::getenv("VF_THREADS")) {
		run_threads(unsigned(num(n)), reset, exec);
		return 0;
	}
	std::string line;
	while (std::getline(std::cin, line)) {
		auto t = split(line);
		if (t.empty()) {
			continue;
		}
		if (t[0] == "case") {
			reset();
			ev("reset").v("case", num(t[1]));
			continue;
		}
		alarm(command_seconds); // a call that does not return is ended, which the runner sees as a crash
		exec(t);
	}
	alarm(command_seconds);
	reset();
	ev("end");
	return 0;
}

} // namespace vf
