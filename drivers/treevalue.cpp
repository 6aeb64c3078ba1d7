// C21: utki::tree as a value
#include <utki/tree.hpp>

#include <algorithm>
#include <deque>
#include <list>

#include "common.hpp"

using namespace vf;

namespace {
// values live in memory of their own, so that a shared or moved-from one shows
struct val {
	std::unique_ptr<int> p;

	val(int v = -1) :
		p(std::make_unique<int>(v))
	{}

	val(const val& o) :
		p(o.p ? std::make_unique<int>(*o.p) : nullptr)
	{}

	val(val&&) = default;

	val& operator=(const val& o)
	{
		this->p = o.p ? std::make_unique<int>(*o.p) : nullptr;
		return *this;
	}

	val& operator=(val&&) = default;

	int get() const
	{
		return this->p ? *this->p : -1000;
	}

	bool operator==(const val& o) const
	{
		return this->get() == o.get();
	}

	// another type to compare with
	bool operator==(short o) const
	{
		return this->get() == o;
	}
};

template <class T>
std::string show(const T& t)
{
	std::string r = "[" + std::to_string(t.value.get()) + ",[";
	bool first = true;
	for (const auto& c : t.children) {
		r += (first ? "" : ",") + show(c);
		first = false;
	}
	return r + "]]";
}

std::vector<size_t> path_of(const std::string& s)
{
	std::vector<size_t> r;
	if (s == "-") {
		return r;
	}
	size_t v = 0;
	for (char c : s + ".") {
		if (c == '.') {
			r.push_back(v);
			v = 0;
		} else {
			v = v * 10 + size_t(c - '0');
		}
	}
	return r;
}

struct base {
	virtual ~base() = default;
	virtual void exec(const tokens& t) = 0;
};

template <class T>
struct impl : public base {
	std::unique_ptr<T> slot[4];
	size_t limit = 60; // on the nodes of all trees before an operation which adds some
	using C = typename T::container_type;

	impl()
	{
		for (auto& s : this->slot) {
			s = std::make_unique<T>();
		}
	}

	T* node(int s, const std::vector<size_t>& p)
	{
		T* t = this->slot[s].get();
		for (auto i : p) {
			if (i >= t->children.size()) {
				return nullptr;
			}
			t = &*std::next(t->children.begin(), std::ptrdiff_t(i));
		}
		return t;
	}

	size_t size()
	{
		size_t r = 0;
		std::function<void(const T&)> f = [&](const T& t) {
			++r;
			for (const auto& c : t.children) {
				f(c);
			}
		};
		for (auto& s : this->slot) {
			f(*s);
		}
		return r;
	}

	ev& all(ev& e)
	{
		std::string r;
		for (auto& s : this->slot) {
			r += (r.empty() ? "[" : ",") + show(*s);
		}
		return e.raw("slots", r + "]");
	}

	static std::vector<int> ints(const std::string& s)
	{
		std::vector<int> r;
		for (char c : s) {
			if (c != '-' && c != ',') {
				r.push_back(c - '0');
			}
		}
		return r;
	}

	void exec(const tokens& t) override
	{
		const auto& op = t[0];
		if (op == "limit") {
			this->limit = size_t(num(t[1]));
			return;
		}
		int s = int(num(t[1]));
		auto& to = this->slot[s];
		if (op == "val" || op == "asv") {
			int v = int(num(t[2]));
			if (op == "val") {
				to = std::make_unique<T>(val(v));
			} else {
				*to = val(v);
			}
			ev e("of_value");
			all(e.v("s", s).v("v", v));
			return;
		}
		if (op == "vc" || op == "vi" || op == "c" || op == "i") {
			if (size() > this->limit) {
				return;
			}
			int v = int(num(t[2]));
			auto l = ints(t[3]);
			std::unique_ptr<T> n;
			C c;
			for (int k : l) {
				c.push_back(*this->slot[k]);
			}
			if (op == "vc") {
				n = std::make_unique<T>(val(v), std::move(c));
			} else if (op == "c") {
				n = std::make_unique<T>(std::move(c));
			} else {
				auto make = [&](std::initializer_list<T> il) {
					n = op == "vi" ? std::unique_ptr<T>(new T(val(v), il)) : std::unique_ptr<T>(new T(il));
				};
				auto& x = this->slot;
				switch (l.size()) {
					case 0:
						make({});
						break;
					case 1:
						make({*x[l[0]]});
						break;
					case 2:
						make({*x[l[0]], *x[l[1]]});
						break;
					default:
						l.resize(3);
						make({*x[l[0]], *x[l[1]], *x[l[2]]});
						break;
				}
			}
			to = std::move(n);
			ev e(op[0] == 'v' ? "of_value_children" : "of_children");
			all(e.v("s", s).v("v", v).v("list", l));
			return;
		}
		if (op == "cc" || op == "ca") {
			int a = int(num(t[2]));
			if (size() > this->limit) {
				return;
			}
			if (op == "cc") {
				to = std::make_unique<T>(*this->slot[a]);
			} else {
				const T& from = *this->slot[a];
				*to = from;
			}
			ev e("copy");
			all(e.v("s", s).v("a", a));
			return;
		}
		if (op == "mc" || op == "ma" || op == "sw") {
			int a = int(num(t[2]));
			if (a == s) {
				return;
			}
			if (op == "mc") {
				to = std::make_unique<T>(std::move(*this->slot[a]));
				*this->slot[a] = T();
			} else if (op == "ma") {
				*to = std::move(*this->slot[a]);
				*this->slot[a] = T();
			} else {
				using std::swap;
				swap(*to, *this->slot[a]);
			}
			ev e(op == "sw" ? "swap" : "move");
			all(e.v("s", s).v("a", a));
			return;
		}
		if (op == "eq") {
			auto p = path_of(t[2]);
			int a = int(num(t[3]));
			auto q = path_of(t[4]);
			const T* x = node(s, p);
			const T* y = node(a, q);
			if (!x || !y) {
				return;
			}
			ev e("equal");
			all(e.v("s", s).v("p", p).v("a", a).v("q", q).v("res", *x == *y));
			return;
		}
		if (op == "eqv") {
			int v = int(num(t[2]));
			const T& x = *to;
			bool a = x == val(v);
			bool b = x.template operator==<short>(short(v));
			ev e("equal_value");
			all(e.v("s", s).v("v", v).v("res", a));
			if (a != b) {
				ev("overloads_differ");
			}
			return;
		}
		if (op == "find") {
			int v = int(num(t[2]));
			const auto& c = to->children;
			auto i = std::find(c.begin(), c.end(), val(v));
			ev e("find");
			all(e.v("s", s).v("v", v).v("res", std::distance(c.begin(), i)));
			return;
		}
		auto p = path_of(t[2]);
		T* n = node(s, p);
		if (!n) {
			return;
		}
		if (op == "set") {
			int v = int(num(t[3]));
			n->value = val(v);
			ev e("set");
			all(e.v("s", s).v("path", p).v("v", v));
		} else if (op == "add") {
			int a = int(num(t[3]));
			if (size() > this->limit) {
				return;
			}
			T c(*this->slot[a]);
			n->children.push_back(std::move(c));
			ev e("add");
			all(e.v("s", s).v("path", p).v("a", a));
		} else if (op == "fan" || op == "chain") {
			// many children, or one of many levels
			int k = int(num(t[3]));
			int m = int(num(t[4])); // the values are 0 ... m - 1, repeatedly
			T* at = n;
			for (int i = 0; i != k; ++i) {
				at->children.push_back(T(val(i % m)));
				if (op == "chain") {
					at = &at->children.back();
				}
			}
			ev e(op);
			all(e.v("s", s).v("path", p).v("n", k).v("m", m));
		} else if (op == "asg" || op == "asm") {
			// assignment within one tree, possibly between a node and one below it
			auto q = path_of(t[3]);
			T* m = node(s, q);
			auto starts = [](const std::vector<size_t>& a, const std::vector<size_t>& b) {
				return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
			};
			if (!m || size() > this->limit || (op == "asm" && starts(q, p))) {
				return;
			}
			if (op == "asg") {
				const T& from = *m;
				*n = from;
			} else {
				*n = std::move(*m);
				if (!starts(p, q)) {
					*m = T();
				}
			}
			ev e(op == "asg" ? "assign" : "assign_moved");
			all(e.v("s", s).v("p", p).v("q", q));
		} else if (op == "graft") {
			int a = int(num(t[3]));
			if (size() > this->limit || a == s) {
				return;
			}
			*n = *this->slot[a];
			ev e("graft");
			all(e.v("s", s).v("path", p).v("a", a));
		} else if (op == "del") {
			if (p.empty()) {
				return;
			}
			auto k = p.back();
			auto pp = p;
			pp.pop_back();
			auto& c = node(s, pp)->children;
			c.erase(std::next(c.begin(), std::ptrdiff_t(k)));
			ev e("remove");
			all(e.v("s", s).v("path", p));
		} else {
			bad_script(op);
		}
	}
};

thread_local std::unique_ptr<base> b;

void exec(const tokens& t)
{
	if (t[0] == "kind") {
		if (t[1] == "v") {
			b = std::make_unique<impl<utki::tree<val>>>();
		} else if (t[1] == "l") {
			b = std::make_unique<impl<utki::tree<val, std::list>>>();
		} else if (t[1] == "d") {
			b = std::make_unique<impl<utki::tree<val, std::deque>>>();
		} else {
			bad_script("kind");
		}
		return;
	}
	b->exec(t);
}
} // namespace

int main()
{
	return run(
		[]() {
			b = std::make_unique<impl<utki::tree<val>>>();
		},
		exec
	);
}
