// C27: utki::exception, utki::to_string, utki::current_exception_to_string, utki::throw_with_nested
#include <utki/exception.hpp>

#include <cxxabi.h>
#include <system_error>

#include "common.hpp"

using namespace vf;

namespace user {
struct error : public utki::exception {
	std::string msg;

	explicit error(std::string m) :
		msg(std::move(m))
	{}

	const char* what() const noexcept override
	{
		return this->msg.c_str();
	}
};

struct other {
	int i = 0;
};

template <class T>
struct generic_other {
	T t{};
};

// standard and nested, by itself
struct both : public std::runtime_error, public std::nested_exception {
	using std::runtime_error::runtime_error;
};

struct other_nested : public std::nested_exception {};

enum class code {
	a
};

// types with very long names
template <class T>
struct generic_error : public std::runtime_error {
	using std::runtime_error::runtime_error;
};

template <class A, class B>
struct joined {};

using j1 = joined<std::vector<std::string>, std::pair<int, std::string>>;
using j2 = joined<j1, std::vector<j1>>;
using j3 = joined<j2, std::pair<j2, int>>;
using medium_error = generic_error<j1>;
using long_error = generic_error<j3>;
using long_other = generic_other<j3>;
} // namespace user

namespace {
struct level {
	std::string kind; // std, other, stacked
	std::string name, msg, nname;
};

// our own demangling
std::string name_of(const std::type_info& t)
{
	int st = 0;
	char* n = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
	std::string r = n ? n : t.name();
	std::free(n);
	return r;
}

template <class T>
std::string name_of()
{
	return name_of(typeid(T));
}

struct spec {
	char kind;
	std::string msg;
};

thread_local std::vector<spec> specs; // innermost first
thread_local std::vector<level> levels; // outermost first, complete once everything has been thrown

template <class T>
[[noreturn]] void nest_std(T e, const std::string& msg, bool is_std)
{
	try {
		std::throw_with_nested(std::move(e));
	} catch (std::nested_exception& n) {
		levels.insert(levels.begin(), {is_std ? "std" : "other", name_of(typeid(n)), msg, ""});
		throw;
	}
	std::abort();
}

template <class T>
[[noreturn]] void nest_utki(T e, const std::string& msg)
{
	levels.insert(levels.begin(), {"stacked", "utki::stacked_exception<" + name_of<T>() + (name_of<T>().back() == '>' ? " >" : ">"), msg, name_of<T>()});
	utki::throw_with_nested(std::move(e));
	std::abort();
}

template <class T>
[[noreturn]] void innermost(T e, const std::string& msg, bool is_std)
{
	levels.insert(levels.begin(), {is_std ? "std" : "other", name_of<T>(), msg, ""});
	throw e;
}

[[noreturn]] void throw_first(const spec& s)
{
	switch (s.kind) {
		case 'r':
			innermost(std::runtime_error(s.msg), s.msg, true);
		case 'l':
			innermost(std::out_of_range(s.msg), s.msg, true);
		case 'e':
			innermost(user::error(s.msg), s.msg, true);
		case 'i':
			innermost(5, "", false);
		case 's':
			innermost(std::string("text"), "", false);
		case 'o':
			innermost(user::other(), "", false);
		case 'g':
			innermost(user::generic_other<std::vector<int>>(), "", false);
		case 'm':
			innermost(user::medium_error(s.msg), s.msg, true);
		case 'w':
			innermost(user::long_error(s.msg), s.msg, true);
		case 'x':
			innermost(user::long_other(), "", false);
		case 'c':
			innermost(user::code::a, "", false);
		// nested exceptions which are not thrown from a handler: nothing is nested
		case 'b':
			innermost(user::both(s.msg), s.msg, true);
		case 'n':
			innermost(user::other_nested(), "", false);
		case 'h':
			nest_std(std::runtime_error(s.msg), s.msg, true);
		case 'p':
			nest_std(user::other(), "", false);
		default:
			bad_script("innermost");
	}
}

[[noreturn]] void throw_chain(size_t i)
{
	const auto& s = specs[i];
	if (i == 0) {
		throw_first(s);
	}
	try {
		throw_chain(i - 1);
	} catch (...) {
		switch (s.kind) {
			case 'r':
				nest_std(std::runtime_error(s.msg), s.msg, true);
			case 'e':
				nest_std(user::error(s.msg), s.msg, true);
			case 'o':
				nest_std(user::other(), "", false);
			case 'g':
				nest_std(user::generic_other<std::pair<int, char>>(), "", false);
			case 'b':
				levels.insert(levels.begin(), {"std", name_of<user::both>(), s.msg, ""});
				throw user::both(s.msg);
			case 'n':
				levels.insert(levels.begin(), {"other", name_of<user::other_nested>(), "", ""});
				throw user::other_nested();
			case 'm':
				nest_std(user::medium_error(s.msg), s.msg, true);
			case 'w':
				nest_std(user::long_error(s.msg), s.msg, true);
			case 'x':
				nest_std(user::long_other(), "", false);
			case 'M':
				nest_utki(user::medium_error(s.msg), s.msg);
			case 'W':
				nest_utki(user::long_error(s.msg), s.msg);
			case 'R':
				nest_utki(std::runtime_error(s.msg), s.msg);
			case 'L':
				nest_utki(std::length_error(s.msg), s.msg);
			case 'E':
				nest_utki(user::error(s.msg), s.msg);
			default:
				bad_script("kind");
		}
	}
}

void exec(const tokens& t)
{
	if (t[0] == "none") {
		ev("no_current").s_("r", outcome([]() {
			(void)utki::current_exception_to_string();
		}));
		return;
	}
	if (t[0] != "chain") {
		bad_script(t[0]);
	}
	// chain indentation kind:message ...
	std::string ind = unhex_str(t[1]);
	specs.clear();
	levels.clear();
	for (size_t i = 2; i < t.size(); ++i) {
		specs.push_back({t[i][0], unhex_str(t[i].substr(2))});
	}
	auto start = [&]() {
		levels.clear();
		throw_chain(specs.size() - 1);
	};
	// the levels are known only after everything has been thrown
	try {
		start();
	} catch (...) {
		// the type that was thrown last, as the run time knows it
		levels[0].name = name_of(*abi::__cxa_current_exception_type());
		std::string j;
		auto txt = [](const std::string& s) {
			std::string r;
			for (char c : s) {
				r += (r.empty() ? "" : ",") + std::to_string(unsigned(uint8_t(c)));
			}
			return "[" + r + "]";
		};
		for (const auto& l : levels) {
			j += (j.empty() ? "{" : ",{") + ("\"kind\":\"" + l.kind) + "\",\"name\":" + txt(l.name) + ",\"msg\":" + txt(l.msg) +
				",\"nname\":" + txt(l.nname) + "}";
		}
		ev("chain").raw("levels", "[" + j + "]");
		{
			std::string c = utki::current_exception_to_string(ind);
			ev("current").v("ind", ind).v("text", c);
			if (ind.empty()) {
				ev("current").v("ind", ind).v("text", utki::current_exception_to_string());
			}
		}
	}
	try {
		start();
	} catch (std::exception& e) {
		ev("described").v("ind", ind).v("text", utki::to_string(e, ind));
		if (ind.empty()) {
			ev("described").v("ind", ind).v("text", utki::to_string(e));
		}
		// what has been returned stays valid as long as the exception exists
		const char* first = e.what();
		const char* second = e.what();
		ev("what").v("text", std::string(second));
		ev("what").v("text", std::string(first));
		ev("described").v("ind", ind).v("text", utki::to_string(e, ind));
		ev("what").v("text", std::string(first));
	} catch (...) {
	}
	// known by a type derived from std::exception
	auto derived = [&](const auto& e) {
		ev("described").v("ind", ind).v("text", utki::to_string(e, ind));
		if (ind.empty()) {
			ev("described").v("ind", ind).v("text", utki::to_string(e));
		}
	};
	try {
		start();
	} catch (utki::exception& e) {
		derived(e);
	} catch (user::error& e) {
		derived(e);
	} catch (std::out_of_range& e) {
		derived(e);
	} catch (std::runtime_error& e) {
		derived(e);
	} catch (std::exception& e) {
		derived(e);
	} catch (...) {
	}
	// a pointer to the exception, which outlives its handler and is thrown again
	std::exception_ptr kept;
	try {
		start();
	} catch (...) {
		kept = std::current_exception();
	}
	const char* first = nullptr;
	for (int i = 0; i < 2; ++i) {
		try {
			std::rethrow_exception(kept);
		} catch (std::exception& e) {
			if (!first) {
				first = e.what();
			}
			ev("what").v("text", std::string(e.what()));
			ev("what").v("text", std::string(first));
		} catch (...) {
		}
	}
	try {
		start();
	} catch (utki::exception& e) {
		ev("own").v("ind", ind).v("text", e.to_string(ind));
		if (ind.empty()) {
			ev("own").v("ind", ind).v("text", e.to_string());
		}
	} catch (...) {
	}
}
} // namespace

int main()
{
	return run(
		[]() {
		},
		exec
	);
}
