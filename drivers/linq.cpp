// C24: utki::linq
#include <utki/linq.hpp>
#include <utki/span.hpp>

#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>

#include "common.hpp"

using namespace vf;

namespace {
// moved-from records show
struct rec {
	std::unique_ptr<int> p;
	int v;

	rec(int k = -1, int v = -1) :
		p(std::make_unique<int>(k)),
		v(v)
	{}

	rec(const rec& o) :
		p(o.p ? std::make_unique<int>(*o.p) : nullptr),
		v(o.v)
	{}

	rec(rec&& o) noexcept :
		p(std::move(o.p)),
		v(o.v)
	{
		o.v = -2000;
	}

	rec& operator=(const rec& o)
	{
		this->p = o.p ? std::make_unique<int>(*o.p) : nullptr;
		this->v = o.v;
		return *this;
	}

	rec& operator=(rec&& o) noexcept
	{
		if (this != &o) {
			this->p = std::move(o.p);
			this->v = o.v;
			o.v = -2000;
		}
		return *this;
	}

	int get() const
	{
		return this->p ? *this->p : -1000;
	}

	const int& key() const
	{
		static const int moved = -1000;
		return this->p ? *this->p : moved;
	}
};

// cannot be copied
struct mrec : public rec {
	using rec::rec;
	mrec(const mrec&) = delete;
	mrec& operator=(const mrec&) = delete;
	mrec(mrec&&) = default;
	mrec& operator=(mrec&&) = default;
};

// not to be derived from
struct fin final {
	int a, b;

	fin(int a, int b) :
		a(a),
		b(b)
	{}
};

using entry = std::pair<const int, int>;

// key and value of an element; a number is both its key and its value
const int& k(const rec& e)
{
	return e.key();
}

const int& k(const fin& e)
{
	return e.a;
}

const int& k(const entry& e)
{
	return e.first;
}

const int& k(const int& e)
{
	return e;
}

const bool& k(const bool& e)
{
	return e;
}

const char& k(const char& e)
{
	return e;
}

const bool& w(const bool& e)
{
	return e;
}

const char& w(const char& e)
{
	return e;
}

const int& w(const rec& e)
{
	return e.v;
}

const int& w(const fin& e)
{
	return e.b;
}

const int& w(const entry& e)
{
	return e.second;
}

const int& w(const int& e)
{
	return e;
}

template <class C>
constexpr bool is_span = false;
template <class E>
constexpr bool is_span<utki::span<E>> = true;

template <class C>
constexpr bool is_array = false;
template <class E, size_t n>
constexpr bool is_array<std::array<E, n>> = true;

// what a grouping gives
template <class C>
constexpr bool is_groups = false;
template <class E>
constexpr bool is_groups<std::map<int, std::vector<E>>> = true;
template <class E>
constexpr bool is_groups<std::map<const int, std::vector<E>>> = true;

// functions may take copies of elements which can be copied
template <class E>
constexpr bool can_copy = std::is_copy_constructible_v<E>;
template <class E>
constexpr bool can_copy<std::pair<const int, std::vector<E>>> = std::is_copy_constructible_v<E>;
template <class E>
using by_value = std::conditional_t<can_copy<E>, E, const E&>;

template <class C>
constexpr bool is_map = false;
template <>
constexpr bool is_map<std::map<int, int>> = true;

template <class C>
constexpr bool is_set = false;
template <class E>
constexpr bool is_set<std::set<E>> = true;
template <class E>
constexpr bool is_set<std::multiset<E>> = true;

template <class E>
std::string show(const E& e)
{
	return "[" + std::to_string(k(e)) + "," + std::to_string(w(e)) + "]";
}

template <class C>
std::string show_all(const C& c);

template <class E>
std::string show(const std::pair<const int, std::vector<E>>& g)
{
	return "[" + std::to_string(g.first) + "," + show_all(g.second) + "]";
}

template <class C>
std::string show_all(const C& c)
{
	std::string r;
	for (const auto& e : c) {
		r += (r.empty() ? "" : ",") + show(e);
	}
	return "[" + r + "]";
}

struct step {
	std::string op, f;
};

using steps = std::vector<step>;

thread_local std::string result;

struct inapplicable {};

int rem(int v)
{
	return v % 3;
}

template <class A>
void apply(A a, const steps& s, size_t i);

template <class A, class C>
void apply_to(A& a, const steps& s, size_t i, const C*)
{
	const auto& op = s[i].op;
	const auto& f = s[i].f;
	if constexpr (is_groups<C>) {
		using E = typename C::value_type;
		if (op == "where") {
			if (f == "several") {
				apply(a.where([](const auto& g) { return g.second.size() > 1; }), s, i + 1);
			} else if (f == "odd_key") {
				apply(a.where([](by_value<E> g) { return g.first % 2 == 1; }), s, i + 1);
			} else if (f == "all") {
				apply(a.where([](const auto&) { return true; }), s, i + 1);
			} else if (f == "nothing") {
				apply(a.where([](const auto&) { return false; }), s, i + 1);
			} else {
				throw inapplicable();
			}
		} else if (op == "select") {
			if (f == "sum") {
				apply(a.select([](const auto& g) {
					int x = 0;
					for (const auto& r : g.second) {
						x += w(r);
					}
					return rec(g.first, x);
				}),
					  s,
					  i + 1);
			} else if (f == "count") {
				apply(a.select([](E g) { return rec(g.first, int(g.second.size())); }), s, i + 1);
			} else if (f == "first") {
				apply(a.select([](const E& g, size_t p) { return rec(k(g.second.at(0)) + int(p), w(g.second.at(0))); }), s, i + 1);
			} else {
				throw inapplicable();
			}
		} else {
			throw inapplicable();
		}
	} else {
		if (op == "select") {
			using E = typename C::value_type;
			if (f == "inc") {
				if constexpr (std::is_same_v<E, rec>) {
					apply(a.select([](auto e) {
						++e.v;
						return e;
					}),
						  s,
						  i + 1);
				} else {
					apply(a.select([](auto e) { return rec(k(e), w(e) + 1); }), s, i + 1);
				}
			} else if (f == "half") {
				apply(a.select([](auto&& e) { return rec(k(e), w(e) / 2); }), s, i + 1);
			} else if (f == "swap") {
				apply(a.select([](const E& e) { return rec(w(e), k(e)); }), s, i + 1);
			} else if (f == "index") {
				apply(a.select([](auto&& e, size_t p) { return rec(k(e), w(e) * 10 + int(p)); }), s, i + 1);
			} else if (f == "position") {
				apply(a.select([](E e, size_t p) { return rec(int(p), w(e)); }), s, i + 1);
			} else if (f == "key") {
				// the function returns a reference
				apply(a.select([](const E& e) -> const auto& { return k(e); }), s, i + 1);
			} else {
				throw inapplicable();
			}
		} else if (op == "where") {
			// what cannot grow is rejected by the compiler
			if constexpr (!is_span<C> && !is_array<C>) {
			using E = typename C::value_type;
			if (f == "even") {
				apply(a.where([](const auto& e) { return w(e) % 2 == 0; }), s, i + 1);
			} else if (f == "small") {
				apply(a.where([](by_value<E> e) { return k(e) < 2; }), s, i + 1);
			} else if (f == "all") {
				apply(a.where([](const auto&) { return true; }), s, i + 1);
			} else if (f == "nothing") {
				apply(a.where([](const auto&) { return false; }), s, i + 1);
			} else {
				throw inapplicable();
			}
			} else {
				throw inapplicable();
			}
		} else if (op == "group") {
			using E = typename C::value_type;
			if (f == "k") {
				apply(a.group_by([](const auto& e) { return int(k(e)); }), s, i + 1);
			} else if (f == "v") {
				apply(a.group_by([](by_value<E> e) { return int(w(e)); }), s, i + 1);
			} else if (f == "kref") {
				if constexpr (std::is_same_v<decltype(k(std::declval<const E&>())), const int&>) {
					apply(a.group_by([](const auto& e) -> const auto& { return k(e); }), s, i + 1);
				} else {
					throw inapplicable();
				}
			} else if (f == "mod") {
				apply(a.group_by([](const auto& e) { return rem(w(e)); }), s, i + 1);
			} else {
				throw inapplicable();
			}
		} else if (op == "order") {
			// the entries of a map cannot be assigned
			if constexpr (!is_map<C>) {
				using E = typename C::value_type;
				if (f == "k") {
					apply(a.order_by([](const auto& e) -> const auto& { return k(e); }), s, i + 1);
				} else if (f == "v") {
					apply(a.order_by([](const E& e) -> const auto& { return w(e); }), s, i + 1);
				} else {
					throw inapplicable();
				}
			} else {
				throw inapplicable();
			}
		} else {
			throw inapplicable();
		}
	}
}

template <class A>
void apply(A a, const steps& s, size_t i)
{
	using C = std::remove_const_t<std::remove_reference_t<decltype(a.get())>>;
	if (i == s.size()) {
		const auto& r = a.get();
		result = show_all(r);
		return;
	}
	apply_to(a, s, i, static_cast<const C*>(nullptr));
}

template <class C>
C make(const std::vector<std::pair<int, int>>& in)
{
	C c{};
	if constexpr (is_array<C>) {
		c.fill(rec(0, 0));
	}
	[[maybe_unused]] size_t i = 0;
	for (auto& x : in) {
		using E = typename C::value_type;
		if constexpr (is_array<C>) {
			if (i < c.size()) {
				c[i++] = rec(x.first, x.second);
			}
		} else if constexpr (is_set<C>) {
			c.insert(x.first);
		} else if constexpr (std::is_same_v<E, int>) {
			c.emplace_back(x.first);
		} else if constexpr (std::is_same_v<E, bool> || std::is_same_v<E, char>) {
			c.push_back(E(x.first % 100));
		} else if constexpr (is_map<C>) {
			c.emplace(x.first, x.second);
		} else {
			c.emplace_back(x.first, x.second);
		}
	}
	return c;
}

void report(const steps& s, const std::string& source, const std::string& after)
{
	std::string st;
	for (auto& x : s) {
		st += (st.empty() ? "[\"" : ",[\"") + x.op + "\",\"" + x.f + "\"]";
	}
	ev("query").raw("steps", "[" + st + "]").raw("source", source).raw("result", result).v("borrowed", true).raw("after", after);
}

template <class C>
void query(const std::vector<std::pair<int, int>>& in, const steps& s, char how)
{
	C c = make<C>(in);
	auto source = show_all(c);
	try {
		if constexpr (!std::is_copy_constructible_v<typename C::value_type>) {
			apply(utki::linq(make<C>(in)), s, 0);
		} else {
			if (how == 'm') {
				apply(utki::linq(C(c)), s, 0);
			} else if (how == 'o') {
				C d = c;
				apply(utki::linq(std::move(d)), s, 0);
			} else if (how == 'c') {
				const C& cc = c;
				apply(utki::linq(cc), s, 0);
			} else {
				apply(utki::linq(c), s, 0);
			}
		}
	} catch (inapplicable&) {
		return;
	}
	report(s, source, show_all(c));
}

// a view of a collection: the elements are never the view's own
template <class E>
void view_query(const std::vector<std::pair<int, int>>& in, const steps& s, char how)
{
	auto c = make<std::vector<rec>>(in);
	auto source = show_all(c);
	try {
		utki::span<E> v(c.data(), c.size());
		if (how == 'm') {
			apply(utki::linq(utki::span<E>(v)), s, 0);
		} else if (how == 'o') {
			apply(utki::linq(std::move(v)), s, 0);
		} else if (how == 'c') {
			const auto& cv = v;
			apply(utki::linq(cv), s, 0);
		} else {
			apply(utki::linq(v), s, 0);
		}
	} catch (inapplicable&) {
		return;
	}
	report(s, source, show_all(c));
}

thread_local std::vector<std::pair<int, int>> src;
thread_local steps st;

// c: collection, filled by "src k v k v..."; steps accumulate and are run after each
void exec(const tokens& t)
{
	if (t[0] == "src") {
		src.clear();
		st.clear();
		for (size_t i = 1; i + 1 < t.size(); i += 2) {
			src.emplace_back(int(num(t[i])), int(num(t[i + 1])));
		}
		return;
	}
	if (t[0] == "fill") {
		// many records
		src.clear();
		st.clear();
		auto m = num(t.at(2));
		for (long long i = 0; i < num(t.at(1)); ++i) {
			src.emplace_back(int((i * 31 + i / 7) % m), int((i * 17 + i / 3) % m));
		}
		return;
	}
	if (t[0] == "run") {
		for (char how : t[2]) {
			if (t[1] == "v") {
				query<std::vector<rec>>(src, st, how);
			} else if (t[1] == "l") {
				query<std::list<rec>>(src, st, how);
			} else if (t[1] == "d") {
				query<std::deque<rec>>(src, st, how);
			} else if (t[1] == "i") {
				query<std::vector<int>>(src, st, how);
			} else if (t[1] == "j") {
				query<std::list<int>>(src, st, how);
			} else if (t[1] == "f") {
				query<std::vector<fin>>(src, st, how);
			} else if (t[1] == "s") {
				query<std::set<int>>(src, st, how);
			} else if (t[1] == "u") {
				query<std::multiset<int>>(src, st, how);
			} else if (t[1] == "b") {
				query<std::vector<bool>>(src, st, how);
			} else if (t[1] == "t") {
				query<std::string>(src, st, how);
			} else if (t[1] == "a") {
				query<std::array<rec, 3>>(src, st, how);
			} else if (t[1] == "n") {
				query<std::vector<mrec>>(src, st, how);
			} else if (t[1] == "N") {
				query<std::list<mrec>>(src, st, how);
			} else if (t[1] == "p") {
				view_query<rec>(src, st, how);
			} else if (t[1] == "P") {
				view_query<const rec>(src, st, how);
			} else if (t[1] == "m") {
				query<std::map<int, int>>(src, st, how);
			} else {
				bad_script("container");
			}
		}
		return;
	}
	if (t.size() != 2) {
		bad_script(t[0]);
	}
	st.push_back({t[0], t[1]});
}
} // namespace

int main()
{
	return run(
		[]() {
			src.clear();
			st.clear();
		},
		exec
	);
}
