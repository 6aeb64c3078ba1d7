// C26: utki::skip_front, utki::views, enum_iterable, enum_array
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/views.hpp>

#include <array>
#include <deque>
#include <list>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::vector<int> c0;
thread_local std::list<int> c1;
thread_local std::deque<int> c2;

void show(ev& e)
{
	std::vector<std::vector<int>> r;
	r.emplace_back(c0.begin(), c0.end());
	r.emplace_back(c1.begin(), c1.end());
	r.emplace_back(c2.begin(), c2.end());
	e.v("cols", r);
}

template <class F>
void with(int c, F f)
{
	switch (c) {
		case 0:
			f(c0);
			break;
		case 1:
			f(c1);
			break;
		case 2:
			f(c2);
			break;
		// constant ones
		case 3:
			f(static_cast<const std::vector<int>&>(c0));
			break;
		case 4:
			f(static_cast<const std::list<int>&>(c1));
			break;
		case 5:
			f(static_cast<const std::deque<int>&>(c2));
			break;
		default:
			bad_script("collection");
	}
}

// fewer kinds, to keep the number of instantiations down
template <class F>
void with_third(int c, F f)
{
	if (c % 3 == 0) {
		f(static_cast<const std::vector<int>&>(c0));
	} else if (c % 3 == 1) {
		f(c1);
	} else {
		f(c2);
	}
}

constexpr size_t too_many = 5000;

template <class V>
std::vector<int> seen(V&& view)
{
	std::vector<int> r;
	for (auto& x : view) {
		r.push_back(x);
		if (r.size() > too_many) {
			break;
		}
	}
	return r;
}

// writes to the i-th element that the view shows
template <class V>
void write(V&& view, size_t i, int v)
{
	for (auto& x : view) {
		if (i-- == 0) {
			if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) {
				x = v;
			}
			return;
		}
	}
}

template <class F>
void skipped(size_t n, F f)
{
	switch (n) {
		case 0:
			f(std::integral_constant<size_t, 0>());
			break;
		case 1:
			f(std::integral_constant<size_t, 1>());
			break;
		case 2:
			f(std::integral_constant<size_t, 2>());
			break;
		case 3:
			f(std::integral_constant<size_t, 3>());
			break;
		case 7:
			f(std::integral_constant<size_t, 7>());
			break;
		case 300:
			f(std::integral_constant<size_t, 300>());
			break;
		default:
			bad_script("skip");
	}
}

// enumerations
// clang-format off
enum class e1 { a, enum_size };
enum class e3 : uint8_t { a, b, c, enum_size };
enum class e126 : int8_t { a, enum_size = 126 };
enum class e127 : int8_t { a, enum_size = 127 };
enum class e128 : uint8_t { a, enum_size = 128 };
enum class e200 : uint8_t { a, enum_size = 200 };
enum class e255 : uint8_t { a, enum_size = 255 };
enum class e5 : uint64_t { a, enum_size = 5 };
enum class e4 : unsigned { a, enum_size = 4 };
enum class e6 : short { a, enum_size = 6 };
enum class e256 : uint16_t { a, enum_size = 256 };
enum class e257 : int16_t { a, enum_size = 257 };
enum class e900 : long long { a, enum_size = 900 };
enum class e2 : int64_t { a, b, enum_size };
enum class e17 : char { a, enum_size = 17 };
enum class e33 : unsigned short { a, enum_size = 33 };
enum class e65 : int { a, enum_size = 65 };
enum class e300 { a, enum_size = 300 };
// clang-format on

struct base {
	virtual ~base() = default;
	virtual void exec(const tokens& t) = 0;
};

template <class E>
struct impl : public base {
	utki::enum_array<int, E> a{};
	static constexpr size_t n = size_t(E::enum_size);

	std::vector<int> all() const
	{
		std::vector<int> r;
		for (size_t i = 0; i < n; ++i) {
			r.push_back(this->a.data()[i]);
		}
		return r;
	}

	impl()
	{
		ev("array").v("n", n).v("x", all());
	}

	void exec(const tokens& t) override
	{
		const auto& op = t[0];
		if (op == "items") {
			std::vector<size_t> r, r2;
			utki::enum_iterable<E> it;
			for (auto e : utki::enum_iterable_v<E>) {
				r.push_back(size_t(e));
				if (r.size() > too_many) {
					break;
				}
			}
			for (auto i = it.cbegin(); i != it.cend(); ++i) {
				r2.push_back(size_t(*i));
				if (r2.size() > too_many) {
					break;
				}
			}
			if (r != r2) {
				r.push_back(9999);
			}
			std::vector<size_t> back;
			for (auto i = it.rbegin(); i != it.rend(); ++i) {
				back.push_back(size_t(*i));
				if (back.size() > too_many) {
					break;
				}
			}
			std::vector<size_t> back2, back3;
			for (auto i = it.crbegin(); !(i == it.crend()); i++) {
				back2.push_back(size_t(*i));
				if (back2.size() > too_many) {
					break;
				}
			}
			for (auto e : utki::views::reverse(utki::enum_iterable_v<E>)) {
				back3.push_back(size_t(e));
				if (back3.size() > too_many) {
					break;
				}
			}
			if (back != back2 || back != back3) {
				back.push_back(9999);
			}
			ev("items").v("n", n).v("size", it.size()).v("seen", r).v("back", back);
			return;
		}
		if (op == "wr") {
			size_t i = size_t(num(t[1])) % n;
			int v = int(num(t[2]));
			switch (num(t[3])) {
				case 0:
					this->a[E(i)] = v;
					break;
				case 1:
					this->a[i] = v;
					break;
				default:
					for (auto x : this->a.zip_with_enum()) {
						if (std::get<1>(x) == E(i)) {
							std::get<0>(x) = v;
						}
					}
					break;
			}
			ev("array_write").v("i", i).v("v", v).v("x", all());
			return;
		}
		if (op == "rd") {
			const auto& ca = this->a;
			std::vector<int> idx, plain;
			std::vector<std::vector<int>> pairs, cpairs;
			for (size_t i = 0; i < n; ++i) {
				idx.push_back(ca[E(i)]);
				if (&this->a[E(i)] != &ca[E(i)]) {
					idx.push_back(-1);
				}
			}
			for (auto x : ca) {
				plain.push_back(x);
			}
			for (auto x : this->a.zip_with_enum()) {
				pairs.push_back({std::get<0>(x), int(std::get<1>(x))});
				if (pairs.size() > too_many) {
					break;
				}
			}
			for (auto x : ca.zip_with_enum()) {
				cpairs.push_back({std::get<0>(x), int(std::get<1>(x))});
				if (cpairs.size() > too_many) {
					break;
				}
			}
			if (cpairs != pairs) {
				pairs.push_back({-1, -1});
			}
			ev("array_read").v("indexed", idx).v("plain", plain).v("pairs", pairs);
			return;
		}
		if (op == "fl") {
			int v = int(num(t[1]));
			for (auto [x, e] : this->a.zip_with_enum()) {
				x = int(e) + v;
			}
			ev("array_fill").v("v", v).v("x", all());
			return;
		}
		bad_script(op);
	}
};

thread_local std::unique_ptr<base> b;

template <class E>
bool pick(long long n)
{
	if (n == (long long)(E::enum_size)) {
		b = std::make_unique<impl<E>>();
		return true;
	}
	return false;
}

// views which are kept while the collections change
struct kept_views {
	const decltype(c0)& k0 = c0;
	const decltype(c1)& k1 = c1;
	const decltype(c2)& k2 = c2;
	decltype(utki::views::zip(c0)) z1 = utki::views::zip(c0);
	decltype(utki::views::zip(c0, c1)) z2 = utki::views::zip(c0, c1);
	decltype(utki::views::zip(c2, c0, c1)) z3 = utki::views::zip(c2, c0, c1);
	decltype(utki::views::zip(k1, k2)) zc = utki::views::zip(k1, k2);
	decltype(utki::views::zip(c1, k0, c1, k2)) z4 = utki::views::zip(c1, k0, c1, k2);
	decltype(utki::skip_front<1>(c0)) s0 = utki::skip_front<1>(c0);
	decltype(utki::skip_front<2>(k1)) s1 = utki::skip_front<2>(k1);
	decltype(utki::views::reverse(c1)) r1 = utki::views::reverse(c1);
	decltype(utki::views::reverse(k2)) r2 = utki::views::reverse(k2);
};

thread_local std::unique_ptr<kept_views> kept;

void look(int which)
{
	auto zipped = [](auto& view, const std::vector<int>& cs) {
		std::vector<std::vector<int>> r;
		for (auto x : view) {
			r.push_back(std::apply(
				[](auto&... y) {
					return std::vector<int>{y...};
				},
				x
			));
			if (r.size() > too_many) {
				break;
			}
		}
		ev e("zip");
		e.v("cs", cs).v("seen", r);
		show(e);
	};
	auto skips = [](auto& view, int c, size_t size, size_t n) {
		if (size >= n) {
			auto r = seen(view);
			ev e("skip");
			e.v("c", c).v("n", n).v("seen", r);
			show(e);
		}
	};
	auto reversed = [](auto& view, int c) {
		auto r = seen(view);
		ev e("reverse");
		e.v("c", c).v("seen", r);
		show(e);
	};
	switch (which) {
		case 0:
			return zipped(kept->z1, {0});
		case 1:
			return zipped(kept->z2, {0, 1});
		case 2:
			return zipped(kept->z3, {2, 0, 1});
		case 3:
			return zipped(kept->zc, {1, 2});
		case 4:
			return zipped(kept->z4, {1, 0, 1, 2});
		case 5:
			return skips(kept->s0, 0, c0.size(), 1);
		case 6:
			return skips(kept->s1, 1, c1.size(), 2);
		case 7:
			return reversed(kept->r1, 1);
		case 8:
			return reversed(kept->r2, 2);
		default:
			bad_script("look");
	}
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "enum") {
		auto n = num(t[1]);
		if (!(pick<e1>(n) || pick<e3>(n) || pick<e4>(n) || pick<e5>(n) || pick<e6>(n) || pick<e126>(n) || pick<e127>(n) || pick<e128>(n) ||
			  pick<e200>(n) || pick<e255>(n) || pick<e256>(n) || pick<e257>(n) || pick<e900>(n) ||
			  pick<e2>(n) || pick<e17>(n) || pick<e33>(n) || pick<e65>(n) || pick<e300>(n)))
		{
			bad_script("enum");
		}
		return;
	}
	if (op == "fill") {
		int c = int(num(t[1]));
		std::vector<int> x;
		for (size_t i = 2; i < t.size(); ++i) {
			x.push_back(int(num(t[i])));
		}
		with(c, [&](auto& k) {
			if constexpr (!std::is_const_v<std::remove_reference_t<decltype(k)>>) {
				k.assign(x.begin(), x.end());
			}
		});
		c0.shrink_to_fit();
		ev e("fill");
		e.v("c", c).v("x", x);
		show(e);
		return;
	}
	if (op == "skip" || op == "skipw") {
		int c = int(num(t[1]));
		size_t n = size_t(num(t[2]));
		with(c, [&](auto& k) {
			if (k.size() < n) {
				return;
			}
			skipped(n, [&](auto m) {
				if (op == "skip") {
					auto view = utki::skip_front<m.value>(k);
					auto r = seen(view);
					if (seen(view) != r) {
						ev("second_time_differs");
					}
					ev e("skip");
					e.v("c", c % 3).v("n", n).v("seen", r);
					show(e);
				} else {
					size_t i = size_t(num(t[3]));
					int v = int(num(t[4]));
					if (c > 2 || i + n >= k.size()) {
						return;
					}
					write(utki::skip_front<m.value>(k), i, v);
					ev e("skip_write");
					e.v("c", c).v("n", n).v("i", i).v("v", v);
					show(e);
				}
			});
		});
		return;
	}
	if (op == "rev" || op == "revw") {
		int c = int(num(t[1]));
		with(c, [&](auto& k) {
			if (op == "rev") {
				auto view = utki::views::reverse(k);
				auto r = seen(view);
				if (seen(view) != r) {
					ev("second_time_differs");
				}
				ev e("reverse");
				e.v("c", c % 3).v("seen", r);
				show(e);
			} else {
				size_t i = size_t(num(t[2]));
				int v = int(num(t[3]));
				if (c > 2 || i >= k.size()) {
					return;
				}
				write(utki::views::reverse(k), i, v);
				ev e("reverse_write");
				e.v("c", c).v("i", i).v("v", v);
				show(e);
			}
		});
		return;
	}
	if (op == "zip" || op == "zipw") {
		// zip a b c (c: -1 for only two)
		int a = int(num(t[1])), d = int(num(t[2])), f = int(num(t[3]));
		std::vector<int> cs{a % 3, d % 3};
		std::vector<std::vector<int>> r;
		size_t wi = op == "zipw" ? size_t(num(t[4])) : 0;
		size_t wj = op == "zipw" ? size_t(num(t[5])) : 0;
		int wv = op == "zipw" ? int(num(t[6])) : 0;
		bool wrote = false;
		auto go = [&](auto&& view, auto get) {
			size_t i = 0;
			for (auto x : view) {
				get(x, i == wi);
				++i;
				if (i > too_many) {
					break;
				}
			}
		};
		auto put = [&](auto& x) {
			if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) {
				if (op == "zipw") {
					x = wv;
					wrote = true;
				}
			}
		};
		with(a, [&](auto& x) {
			with(d, [&](auto& y) {
				if (f < 0) {
					go(utki::views::zip(x, y), [&](auto& q, bool w) {
						if (w) {
							wj == 0 ? put(std::get<0>(q)) : put(std::get<1>(q));
						}
						r.push_back({std::get<0>(q), std::get<1>(q)});
					});
				} else {
					cs.push_back(f % 3);
					with_third(f, [&](auto& z) {
						go(utki::views::zip(x, y, z), [&](auto& q, bool w) {
							if (w) {
								wj == 0 ? put(std::get<0>(q)) : wj == 1 ? put(std::get<1>(q)) : put(std::get<2>(q));
							}
							r.push_back({std::get<0>(q), std::get<1>(q), std::get<2>(q)});
						});
					});
				}
			});
		});
		if (op == "zip") {
			ev e("zip");
			e.v("cs", cs).v("seen", r);
			show(e);
		} else if (wrote) {
			ev e("zip_write");
			e.v("cs", cs).v("i", wi).v("j", f < 0 && wj > 1 ? 1 : wj).v("v", wv);
			show(e);
		}
		return;
	}
	if (op == "zipn") {
		// zipn how-many first
		size_t n = size_t(num(t[1]));
		int k = int(num(t[2])) % 3;
		std::vector<int> cs;
		for (size_t i = 0; i < n; ++i) {
			cs.push_back(int(k + i) % 3);
		}
		std::vector<std::vector<int>> r;
		auto go = [&](auto&... c) {
			auto view = utki::views::zip(c...);
			for (int again = 0; again < 2; ++again) {
				r.clear();
				for (auto x : view) {
					r.push_back(std::apply(
						[](auto&... y) {
							return std::vector<int>{y...};
						},
						x
					));
					if (r.size() > too_many) {
						break;
					}
				}
			}
		};
		const auto& k0 = c0;
		const auto& k1 = c1;
		const auto& k2 = c2;
		auto four_or_more = [&](auto& a, auto& b, auto& c, auto& a2, auto& b2, auto& c2) {
			switch (n) {
				case 4:
					go(a, b, c, a2);
					break;
				case 5:
					go(a, b, c, a2, b2);
					break;
				case 7:
					go(a, b, c, a2, b2, c2, a);
					break;
				default:
					bad_script("zipn");
			}
		};
		if (k == 0) {
			four_or_more(c0, c1, c2, k0, k1, k2);
		} else if (k == 1) {
			four_or_more(c1, k2, c0, c1, k2, c0);
		} else {
			four_or_more(k2, c0, k1, c2, c0, k1);
		}
		ev e("zip");
		e.v("cs", cs).v("seen", r);
		show(e);
		return;
	}
	if (op == "zip1") {
		int a = int(num(t[1]));
		std::vector<std::vector<int>> r;
		with(a, [&](auto& x) {
			for (auto q : utki::views::zip(x)) {
				r.push_back({std::get<0>(q)});
				if (r.size() > too_many) {
					break;
				}
			}
		});
		ev e("zip");
		e.v("cs", std::vector<int>{a % 3}).v("seen", r);
		show(e);
		return;
	}
	if (op == "keep") {
		kept = std::make_unique<kept_views>();
		return;
	}
	if (op == "look") {
		if (!kept) {
			bad_script(op);
		}
		look(int(num(t[1])));
		return;
	}
	if (!b) {
		bad_script(op);
	}
	b->exec(t);
}
} // namespace

int main()
{
	return run(
		[]() {
			b.reset();
			kept.reset();
			c0.clear();
			c1.clear();
			c2.clear();
		},
		exec
	);
}
