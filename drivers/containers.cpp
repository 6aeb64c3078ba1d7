// C30: container helpers of utility.hpp
#include <utki/utility.hpp>

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#if __cplusplus >= 202002L
#	include <span>
#endif

#include "common.hpp"

using namespace vf;

namespace {
using pos_type = unsigned __int128;
constexpr size_t pos_bytes = 12;

// an iterator over positions, which remembers being moved out of its difference type's range
template <class D, class C>
class counter
{
public:
	using difference_type = D;
	using value_type = int;
	using pointer = const int*;
	using reference = int;
	using iterator_category = C;

	pos_type p = 0;

	counter() = default;

	explicit counter(pos_type p) :
		p(p)
	{}

	int operator*() const
	{
		return int(this->p);
	}

	counter& operator++()
	{
		++this->p;
		return *this;
	}

	counter operator++(int)
	{
		auto r = *this;
		++this->p;
		return r;
	}

	counter& operator--()
	{
		--this->p;
		return *this;
	}

	counter operator--(int)
	{
		auto r = *this;
		--this->p;
		return r;
	}

	counter& operator+=(D d)
	{
		this->p += pos_type(__int128(d));
		return *this;
	}

	counter& operator-=(D d)
	{
		this->p -= pos_type(__int128(d));
		return *this;
	}

	friend counter operator+(counter c, D d)
	{
		return c += d;
	}

	friend counter operator+(D d, counter c)
	{
		return c += d;
	}

	friend counter operator-(counter c, D d)
	{
		return c -= d;
	}

	friend D operator-(const counter& a, const counter& b)
	{
		return D(a.p - b.p);
	}

	int operator[](D d) const
	{
		return *(*this + d);
	}

	bool operator==(const counter& o) const
	{
		return this->p == o.p;
	}

	bool operator!=(const counter& o) const
	{
		return this->p != o.p;
	}

	bool operator<(const counter& o) const
	{
		return this->p < o.p;
	}

	bool operator>(const counter& o) const
	{
		return this->p > o.p;
	}

	bool operator<=(const counter& o) const
	{
		return this->p <= o.p;
	}

	bool operator>=(const counter& o) const
	{
		return this->p >= o.p;
	}
};

void move_event(bool fwd, pos_type from, uint64_t n, pos_type to, bool kept)
{
	ev(fwd ? "next" : "prev").bytes("from", from, pos_bytes).bytes("n", pos_type(n), pos_bytes).bytes("to", to, pos_bytes).v("kept", kept);
}

template <class D, class C>
void count_move(bool fwd, pos_type from, uint64_t n)
{
	const counter<D, C> i(from);
	auto r = [&] {
		if constexpr (std::is_base_of_v<std::bidirectional_iterator_tag, C>) {
			return fwd ? utki::next(i, size_t(n)) : utki::prev(i, size_t(n));
		} else {
			return utki::next(i, size_t(n));
		}
	}();
	move_event(fwd, from, n, r.p, i.p == from);
}

template <class C>
void move_in(const C& c, bool fwd, size_t from, size_t n)
{
	const auto i = std::next(c.begin(), std::ptrdiff_t(from));
	auto r = [&] {
		if constexpr (!std::is_same_v<
						  typename std::iterator_traits<decltype(c.begin())>::iterator_category,
						  std::forward_iterator_tag>)
		{
			return fwd ? utki::next(i, n) : utki::prev(i, n);
		} else {
			return utki::next(i, n);
		}
	}();
	size_t to = 0;
	for (auto j = c.begin(); j != r; ++j) {
		++to;
		if (to > 100000) {
			break;
		}
	}
	move_event(fwd, from, n, to, i == std::next(c.begin(), std::ptrdiff_t(from)));
}

// compares equal to a number
struct wrapped {
	int v;

	friend bool operator==(const wrapped& a, const wrapped& b)
	{
		return a.v == b.v;
	}

	friend bool operator==(const wrapped& a, int b)
	{
		return a.v == b;
	}
};

struct poor_hash {
	size_t operator()(int) const
	{
		return 3;
	}
};

struct coarse {
	bool operator()(int a, int b) const
	{
		return a / 10 < b / 10;
	}
};

struct same_tens {
	bool operator()(int a, int b) const
	{
		return a / 10 == b / 10;
	}
};

using ints = std::vector<int>;

template <class C, class V>
void has(const C& c, const ints& s, int x, const V& v)
{
	ev("contains").v("s", s).v("x", x).v("r", utki::contains(c, v));
}

template <size_t N>
void has_array(const ints& s, int x)
{
	if (s.size() == N) {
		int a[N];
		std::copy(s.begin(), s.end(), a);
		has(a, s, x, x);
		std::array<int, N> b{};
		std::copy(s.begin(), s.end(), b.begin());
		has(b, s, x, x);
	}
}

using entries = std::vector<ints>;

template <class M>
entries list(const M& m)
{
	entries r;
	for (const auto& p : m) {
		r.push_back({int(p.first), int(p.second)});
	}
	return r;
}

template <class M, class V>
void has_key(const M& m, const entries& e, int x, const V& v)
{
	ev("contains_key").v("m", e).v("x", x).v("r", utki::contains(m, v));
}

std::string name(int i)
{
	return "key number " + std::to_string(i) + " of the map";
}

int unname(const std::string& s)
{
	return int(std::strtol(s.c_str() + 11, nullptr, 10));
}

// ordered by a comparator only
struct bare {
	int v;
};

struct bare_less {
	bool operator()(const bare& a, const bare& b) const
	{
		return a.v < b.v;
	}
};

struct bare_greater {
	bool operator()(const bare& a, const bare& b) const
	{
		return a.v > b.v;
	}
};

template <class C>
void flip(const std::map<int, int, C>& m)
{
	auto before = m;
	{
		auto r = utki::flip_map(m);
		static_assert(std::is_same_v<decltype(r), std::map<int, int>>, "");
		ev("flip_map").v("m", list(before)).v("r", list(r)).s_("o", "less").v("kept", m == before);
	}
	{
		auto r = utki::flip_map<std::greater<int>>(m);
		static_assert(std::is_same_v<decltype(r), std::map<int, int, std::greater<int>>>, "");
		ev("flip_map").v("m", list(before)).v("r", list(r)).s_("o", "greater").v("kept", m == before);
	}
}

template <class S>
struct members;

template <size_t... I>
struct members<std::index_sequence<I...>> {
	static std::vector<size_t> get()
	{
		return {I...};
	}
};

template <size_t O, class S>
void offset()
{
	ev("offset").v("s", members<S>::get()).v("o", O).v("r", members<utki::offset_sequence_t<O, S>>::get());
}

template <size_t O>
void offsets()
{
	offset<O, std::make_index_sequence<0>>();
	offset<O, std::make_index_sequence<1>>();
	offset<O, std::make_index_sequence<2>>();
	offset<O, std::make_index_sequence<7>>();
	offset<O, std::make_index_sequence<40>>();
	offset<O, std::index_sequence<5, 2, 2, 0, 100>>();
	offset<O, std::index_sequence<1000, 3>>();
}

template <class C>
void end_of(C&& c, size_t size)
{
	auto d = std::data(c);
	ev("end_pointer").v("size", size).v("r", utki::end_pointer(std::forward<C>(c)) - d);
}

void exec(const tokens& t)
{
	if (t[0] == "step") {
		// step <iterator> <n|p> <from> <n>
		bool fwd = t.at(2) == "n";
		auto from = pos_type(unum(t.at(3)));
		auto n = unum(t.at(4));
		if (!fwd) {
			from += n; // there is something to step back to
		}
		using R = std::random_access_iterator_tag;
		using B = std::bidirectional_iterator_tag;
		using F = std::forward_iterator_tag;
		auto& k = t[1];
		if (k == "r8") {
			count_move<int8_t, R>(fwd, from, n);
		} else if (k == "r16") {
			count_move<int16_t, R>(fwd, from, n);
		} else if (k == "r32") {
			count_move<int32_t, R>(fwd, from, n);
		} else if (k == "r64") {
			count_move<int64_t, R>(fwd, from, n);
		} else if (k == "b8") {
			count_move<int8_t, B>(fwd, from, n);
		} else if (k == "b16") {
			count_move<int16_t, B>(fwd, from, n);
		} else if (k == "b64") {
			count_move<int64_t, B>(fwd, from, n);
		} else if (k == "f8" && fwd) {
			count_move<int8_t, F>(fwd, from, n);
		} else if (k == "f64" && fwd) {
			count_move<int64_t, F>(fwd, from, n);
		} else {
			bad_script(k);
		}
		return;
	}
	if (t[0] == "walk") {
		// walk <n|p> <size> <from> <to>
		bool fwd = t.at(1) == "n";
		auto size = size_t(num(t.at(2))), from = size_t(num(t.at(3))), to = size_t(num(t.at(4)));
		if (from > size || to > size || (fwd ? from > to : from < to)) {
			bad_script("walk");
		}
		auto n = fwd ? to - from : from - to;
		std::vector<int> v(size, 7);
		move_in(v, fwd, from, n);
		move_in(std::deque<int>(size, 7), fwd, from, n);
		move_in(std::list<int>(size, 7), fwd, from, n);
		move_in(utki::make_span(v), fwd, from, n);
		std::set<int> s;
		for (size_t i = 0; i < size; ++i) {
			s.insert(int(i));
		}
		move_in(s, fwd, from, n);
		auto p = v.data();
		auto q = fwd ? utki::next(p + from, n) : utki::prev(p + from, n);
		move_event(fwd, from, n, pos_type(q - p), true);
		auto ri = fwd ? utki::next(v.rbegin() + std::ptrdiff_t(from), n) : utki::prev(v.rbegin() + std::ptrdiff_t(from), n);
		move_event(fwd, from, n, pos_type(ri - v.rbegin()), true);
		if (fwd) {
			move_in(std::forward_list<int>(size, 7), fwd, from, n);
		}
		return;
	}
	if (t[0] == "contains") {
		int x = int(num(t.at(1)));
		ints s;
		for (size_t i = 2; i < t.size(); ++i) {
			s.push_back(int(num(t[i])));
		}
		has(s, s, x, x);
		has(s, s, x, short(x));
		has(std::list<int>(s.begin(), s.end()), s, x, x);
		has(std::deque<long>(s.begin(), s.end()), s, x, x);
		has(std::forward_list<int>(s.begin(), s.end()), s, x, x);
		has(std::set<int>(s.begin(), s.end()), s, x, x);
		has(std::set<int, std::greater<int>>(s.begin(), s.end()), s, x, x);
		has(std::multiset<int>(s.begin(), s.end()), s, x, x);
		has(std::unordered_set<int>(s.begin(), s.end()), s, x, x);
		// equivalent elements are not equal ones
		std::set<int, coarse> some(s.begin(), s.end());
		has(some, ints(some.begin(), some.end()), x, x);
		std::multiset<int, coarse> all(s.begin(), s.end());
		has(all, s, x, x);
		std::unordered_set<int, poor_hash, same_tens> few(s.begin(), s.end());
		has(few, ints(few.begin(), few.end()), x, x);
		has(utki::make_span(s), s, x, x);
		std::vector<wrapped> w;
		std::string chars;
		std::vector<std::string> names;
		for (auto i : s) {
			w.push_back({i});
			chars += char(i);
			names.push_back(name(i));
		}
		has(w, s, x, x);
		has(w, s, x, wrapped{x});
		has(names, s, x, name(x));
		has(names, s, x, name(x).c_str());
		has(chars, s, x, char(x));
		has(std::string_view(chars), s, x, char(x));
		has_array<1>(s, x);
		has_array<2>(s, x);
		has_array<3>(s, x);
		has_array<8>(s, x);
		return;
	}
	if (t[0] == "map") {
		// map <x> <key>:<value>...
		int x = int(num(t.at(1)));
		std::map<int, int> m;
		for (size_t i = 2; i < t.size(); ++i) {
			auto c = t[i].find(':');
			m.emplace(int(num(t[i].substr(0, c))), int(num(t[i].substr(c + 1))));
		}
		auto e = list(m);
		has_key(m, e, x, x);
		std::map<int, int, std::greater<int>> g(m.begin(), m.end());
		has_key(g, e, x, x);
		std::unordered_map<int, int> u(m.begin(), m.end());
		has_key(u, e, x, x);
		std::unordered_map<int, int, poor_hash> h(m.begin(), m.end());
		has_key(h, e, x, x);
		std::map<std::string, int> n;
		std::unordered_map<std::string, int> un;
		for (auto& p : m) {
			n.emplace(name(p.first), p.second);
			un.emplace(name(p.first), p.second);
		}
		has_key(n, e, x, name(x));
		has_key(n, e, x, name(x).c_str());
		has_key(un, e, x, name(x));
		flip(m);
		flip(g);
		{
			// to and from texts
			auto before = n;
			auto f = utki::flip_map(n);
			entries r;
			for (auto& p : f) {
				r.push_back({p.first, unname(p.second)});
			}
			ev("flip_map").v("m", e).v("r", r).s_("o", "less").v("kept", before == n);
		}
		{
			// keys and values which only comparators order
			std::map<bare, bare, bare_less> b;
			for (auto& p : m) {
				b.emplace(bare{p.first}, bare{p.second});
			}
			auto f = utki::flip_map<bare_greater>(b);
			static_assert(std::is_same_v<decltype(f), std::map<bare, bare, bare_greater>>, "");
			entries r;
			for (auto& p : f) {
				r.push_back({p.first.v, p.second.v});
			}
			ev("flip_map").v("m", e).v("r", r).s_("o", "greater").v("kept", b.size() == m.size());
		}
		for (auto& p : m) {
			auto f = utki::flip_pair(p);
			static_assert(std::is_same_v<decltype(f), std::pair<int, const int>>, "");
			ev("flip_pair").v("p", ints{p.first, p.second}).v("r", ints{f.first, f.second});
			auto s = utki::flip_pair(std::pair<std::string, int>(name(p.first), p.second));
			static_assert(std::is_same_v<decltype(s), std::pair<int, std::string>>, "");
			ev("flip_pair").v("p", ints{p.first, p.second}).v("r", ints{s.first, unname(s.second)});
		}
		return;
	}
	if (t[0] == "end") {
		auto n = size_t(num(t.at(1)));
		std::vector<int> v(n);
		end_of(v, n);
		end_of(static_cast<const std::vector<int>&>(v), n);
		end_of(std::string(n, 'x'), n);
		std::string s(n, 'x');
		end_of(s, n);
		end_of(std::string_view(s), n);
		auto sp = utki::make_span(v);
		end_of(sp, n);
		end_of(utki::make_span(v), n);
#if __cplusplus >= 202002L
		end_of(std::span<int>(v), n);
#endif
		std::array<double, 5> a{};
		end_of(a, 5);
		std::array<int, 0> z{};
		end_of(z, 0);
		int c[7] = {};
		end_of(c, 7);
		return;
	}
	if (t[0] == "offsets") {
		offsets<0>();
		offsets<1>();
		offsets<13>();
		offsets<1000000>();
		return;
	}
	bad_script(t[0]);
}
} // namespace

int main()
{
	return run([] {}, exec);
}
