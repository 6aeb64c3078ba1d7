// C22: utki::flags
#include <utki/flags.hpp>

#include <sstream>

#include "common.hpp"

using namespace vf;

namespace {
// clang-format off
enum class e1 { a, enum_size };
enum class e2 : uint8_t { a, b, enum_size };
enum class e3 : unsigned { a, b, c, enum_size };
enum class e8 : int8_t { a, enum_size = 8 };
enum class e31 : uint16_t { a, enum_size = 31 };
enum class e32 : int { a, enum_size = 32 };
enum class e33 : unsigned { a, enum_size = 33 };
enum class e63 : uint64_t { a, enum_size = 63 };
enum class e64 : int64_t { a, enum_size = 64 };
enum class e65 : short { a, enum_size = 65 };
enum class e128 : uint8_t { a, enum_size = 128 };
enum class e200 : unsigned char { a, enum_size = 200 };
enum class e256 : uint16_t { a, enum_size = 256 };
enum class e257 : int16_t { a, enum_size = 257 };
enum class e700 : long long { a, enum_size = 700 };
// any size, and not scoped
template <long long n>
struct other {
	enum type : int { a, enum_size = n };
};
// clang-format on

struct base {
	virtual ~base() = default;
	virtual void exec(const tokens& t) = 0;
};

template <class E>
struct impl : public base {
	using F = utki::flags<E>;
	F fs[3];
	static constexpr int n = int(E::enum_size);

	void show(ev& e)
	{
		std::vector<std::vector<int>> bits;
		for (const F& f : this->fs) {
			bits.emplace_back();
			for (int i = 0; i < n; ++i) {
				bits.back().push_back(f.get(E(i)));
			}
		}
		e.v("bits", bits);
	}

	impl()
	{
		ev e("kind");
		e.v("n", n);
		show(e);
	}

	static void same(const F& a, const F& b)
	{
		if (&a != &b) {
			ev("returns_something_else");
		}
	}

	static E flag(const std::string& s)
	{
		return E(num(s) % n);
	}

	void exec(const tokens& t) override
	{
		const auto& op = t[0];
		int s = int(num(t[1]));
		F& f = this->fs[s];
		if (op == "q") {
			const F& c = f;
			std::stringstream ss;
			ss << c;
			std::vector<int> idx;
			for (int i = 0; i < n; ++i) {
				idx.push_back(c[E(i)]);
				if (bool(f[E(i)]) != c[E(i)]) {
					idx.push_back(2);
				}
			}
			ev e("query");
			e.v("s", s).v("size", c.size()).v("is_clear", c.is_clear()).v("is_set", c.is_set()).v("index", idx).v("text", ss.str());
			show(e);
			return;
		}
		if (op == "cmp") {
			int a = s;
			int b = int(num(t[2]));
			const F& x = this->fs[a];
			const F& y = this->fs[b];
			ev("compare").v("a", a).v("b", b).v("eq", x == y).v("ne", x != y);
			return;
		}
		if (op == "bool" || op == "def") {
			bool v = op == "bool" && t[2] == "1";
			f = op == "def" ? F() : F(v);
			ev e("of_bool");
			e.v("s", s).v("v", v);
			show(e);
			return;
		}
		if (op == "list" || op == "mk" || op == "one" || op == "two") {
			// up to three flags
			std::vector<int> l;
			for (size_t i = 2; i < t.size(); ++i) {
				l.push_back(int(flag(t[i])));
			}
			E x[3] = {E(0), E(0), E(0)};
			for (size_t i = 0; i < l.size() && i < 3; ++i) {
				x[i] = E(l[i]);
			}
			if (op == "one") {
				f = x[0];
				l.resize(1);
			} else if (op == "two") {
				f = x[0] | x[1];
				l.resize(2, 0);
			} else if (l.empty()) {
				f = op == "mk" ? utki::make_flags<E>({}) : F(std::initializer_list<E>{});
			} else if (l.size() == 1) {
				f = op == "mk" ? utki::make_flags({x[0]}) : F{x[0]};
			} else if (l.size() == 2) {
				f = op == "mk" ? utki::make_flags({x[0], x[1]}) : F{x[0], x[1]};
			} else {
				l.resize(3);
				f = op == "mk" ? utki::make_flags({x[0], x[1], x[2]}) : F{x[0], x[1], x[2]};
			}
			ev e("of_list");
			e.v("s", s).v("list", l);
			show(e);
			return;
		}
		if (op == "cp") {
			int a = int(num(t[2]));
			f = this->fs[a];
			ev e("copy");
			e.v("s", s).v("a", a);
			show(e);
			return;
		}
		if (op == "set" || op == "idx") {
			E x = flag(t[2]);
			bool v = t[3] == "1";
			if (op == "idx") {
				f[x] = v;
			} else if (!v) {
				same(f.set(x, false), f);
			} else {
				same(f.set(x), f);
			}
			ev e("set");
			e.v("s", s).v("f", int(x)).v("v", v);
			show(e);
			return;
		}
		if (op == "clr") {
			E x = flag(t[2]);
			same(f.clear(x), f);
			ev e("set");
			e.v("s", s).v("f", int(x)).v("v", false);
			show(e);
			return;
		}
		if (op == "flip") {
			E x = flag(t[2]);
			f[x].flip();
			ev e("flip");
			e.v("s", s).v("f", int(x));
			show(e);
			return;
		}
		if (op == "setall") {
			bool v = t[2] == "1";
			same(v ? f.set() : f.set(false), f);
			ev e("set_all");
			e.v("s", s).v("v", v);
			show(e);
			return;
		}
		if (op == "clrall") {
			same(f.clear(), f);
			ev e("set_all");
			e.v("s", s).v("v", false);
			show(e);
			return;
		}
		if (op == "inv") {
			same(f.invert(), f);
			ev e("invert");
			e.v("s", s);
			show(e);
			return;
		}
		if (op == "not") {
			int a = int(num(t[2]));
			const F& x = this->fs[a];
			f = ~x;
			ev e("not");
			e.v("s", s).v("a", a);
			show(e);
			return;
		}
		if (op == "and" || op == "or" || op == "xor") {
			int a = int(num(t[2]));
			int b = int(num(t[3]));
			const F& x = this->fs[a];
			const F& y = this->fs[b];
			if (s == a) {
				same(op == "and" ? f &= y : op == "or" ? f |= y : f ^= y, f);
			} else {
				f = op == "and" ? x & y : op == "or" ? x | y : x ^ y;
			}
			ev e("bin");
			e.s_("o", op).v("s", s).v("a", a).v("b", b);
			show(e);
			return;
		}
		if (op == "and1" || op == "or1" || op == "xor1") {
			int a = int(num(t[2]));
			E g = flag(t[3]);
			const F& x = this->fs[a];
			if (s == a && t.size() > 4) {
				same(op == "and1" ? f &= g : op == "or1" ? f |= g : f ^= g, f);
			} else {
				f = op == "and1" ? x & g : op == "or1" ? x | g : x ^ g;
			}
			ev e("bin1");
			e.s_("o", op.substr(0, op.size() - 1)).v("s", s).v("a", a).v("f", int(g));
			show(e);
			return;
		}
		bad_script(op);
	}
};

thread_local std::unique_ptr<base> b;

template <class E>
bool pick(long long n)
{
	if (n == (long long)(E::enum_size)) {
		b = std::make_unique<impl<E>>();
		return true;
	}
	return false;
}

void exec(const tokens& t)
{
	if (t[0] == "kind") {
		auto n = num(t[1]);
		if (!(pick<e1>(n) || pick<e2>(n) || pick<e3>(n) || pick<e8>(n) || pick<e31>(n) || pick<e32>(n) || pick<e33>(n) || pick<e63>(n) ||
			  pick<e64>(n) || pick<e65>(n) || pick<e128>(n) || pick<e200>(n) || pick<e256>(n) || pick<e257>(n) || pick<e700>(n) ||
			  pick<other<4>::type>(n) || pick<other<7>::type>(n) || pick<other<12>::type>(n) || pick<other<16>::type>(n) ||
			  pick<other<24>::type>(n) || pick<other<100>::type>(n) || pick<other<129>::type>(n) || pick<other<512>::type>(n)))
		{
			bad_script("kind");
		}
		return;
	}
	b->exec(t);
}
} // namespace

int main()
{
	return run(
		[]() {
			b.reset();
		},
		exec
	);
}
