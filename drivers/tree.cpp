// C19, C20: utki::tree, utki::traversal
#include <utki/tree.hpp>

#include <deque>
#include <list>

#include "common.hpp"

using namespace vf;

namespace {
// values live in memory of their own, so that a stale or moved-from one shows
struct val {
	std::unique_ptr<int> p;

	val(int v = -1) :
		p(std::make_unique<int>(v))
	{}

	val(const val& o) :
		p(o.p ? std::make_unique<int>(*o.p) : nullptr)
	{}

	val(val&&) = default;

	val& operator=(const val& o)
	{
		this->p = o.p ? std::make_unique<int>(*o.p) : nullptr;
		return *this;
	}

	val& operator=(val&&) = default;

	int get() const
	{
		return this->p ? *this->p : -1000;
	}

	bool operator==(const val& o) const
	{
		return this->get() == o.get();
	}
};

// 1(2,3(4)),5
template <class C>
C parse_forest(const char*& s)
{
	using T = typename C::value_type;
	C ret;
	while (*s >= '0' && *s <= '9') {
		int v = 0;
		while (*s >= '0' && *s <= '9') {
			v = v * 10 + (*s++ - '0');
		}
		T t{val(v)};
		if (*s == '(') {
			++s;
			t.children = parse_forest<C>(s);
			if (*s != ')') {
				bad_script("tree");
			}
			++s;
		}
		ret.push_back(std::move(t));
		if (*s == ',') {
			++s;
		}
	}
	return ret;
}

template <class C>
std::string show(const C& f)
{
	std::string r = "[";
	for (const auto& t : f) {
		r += (r.size() > 1 ? ",[" : "[") + std::to_string(t.value.get()) + "," + show(t.children) + "]";
	}
	return r + "]";
}

std::vector<size_t> path_of(const std::string& s)
{
	std::vector<size_t> r;
	if (s == "-") {
		return r;
	}
	size_t v = 0;
	for (char c : s + ".") {
		if (c == '.') {
			r.push_back(v);
			v = 0;
		} else {
			v = v * 10 + size_t(c - '0');
		}
	}
	return r;
}

// for the trace: TLC has 32 bit integers
std::vector<long long> shown(const std::vector<size_t>& p)
{
	std::vector<long long> r;
	for (auto x : p) {
		r.push_back(sat(x));
	}
	return r;
}

struct base {
	virtual ~base() = default;
	virtual void exec(const tokens& t) = 0;
};

template <class T>
struct is_random : public std::is_same<typename std::iterator_traits<typename T::iterator>::iterator_category, std::random_access_iterator_tag> {};

// C: collection; readonly: the traversal is over a constant collection
template <class C, bool readonly>
struct impl : public base {
	C f;
	using coll = std::conditional_t<readonly, const C, C>;
	using trav = utki::traversal<coll>;
	trav tr = utki::make_traversal(static_cast<coll&>(f));
	size_t n = 0; // number of nodes, by our own count

	using iter = typename trav::iterator;
	using citer = typename trav::const_iterator;
	using riter = typename trav::reverse_iterator;
	using criter = typename trav::const_reverse_iterator;
	iter i0, i1;
	citer i2, i3;
	std::unique_ptr<riter> i4;
	std::unique_ptr<criter> i5;
	int pos[6] = {0, 0, 0, 0, 0, 0}; // by our own count, to stay within the bounds

	static size_t count(const C& c)
	{
		size_t r = 0;
		for (const auto& t : c) {
			r += 1 + count(t.children);
		}
		return r;
	}

	explicit impl(const std::string& text)
	{
		const char* s = text.c_str();
		this->f = parse_forest<C>(s);
		this->n = count(this->f);
		ev("forest").raw("f", show(this->f));
	}

	template <class F>
	void with(int i, F fn)
	{
		switch (i) {
			case 0:
				fn(this->i0);
				break;
			case 1:
				fn(this->i1);
				break;
			case 2:
				fn(this->i2);
				break;
			case 3:
				fn(this->i3);
				break;
			default:
				bad_script("iterator");
		}
	}

	// forward iterators only
	template <class I>
	void look_at(ev& e, I& i)
	{
		bool end = false;
		if constexpr (std::is_same_v<I, citer> && !std::is_same_v<iter, citer>) {
			end = i == this->tr.cend();
		} else {
			end = i == this->tr.end();
		}
		e.v("end", end);
		if (end) {
			e.v("last", i.is_last_child());
			return;
		}
		const auto& ci = i;
		std::vector<int> levels;
		auto d = i.depth();
		std::string beyond = outcome([&]() {
			(void)i.at_level(d);
		});
		if (outcome([&]() {
				(void)ci.at_level(d + 5);
			}) != beyond)
		{
			beyond = "differs";
		}
		for (size_t k = 0; k < d && k < 1000; ++k) {
			levels.push_back(i.at_level(k).value.get());
			if (&i.at_level(k) != &ci.at_level(k)) {
				levels.push_back(-1);
			}
		}
		bool same = &*i == &*ci && i->value.get() == (*i).value.get() && &*i == &i.at_level(d - 1) && ci->value.get() == i->value.get();
		auto v = (*i).value.get();
		e.v("v", same ? v : -2000).v("index", shown(i.index())).v("depth", d).v("last", i.is_last_child()).v("levels", levels).s_("beyond", beyond);
	}

	void look(ev& e, int i)
	{
		e.v("i", i);
		if (i < 4) {
			with(i, [&](auto& x) {
				look_at(e, x);
			});
		} else if (i == 4) {
			bool end = *i4 == this->tr.rend();
			e.v("end", end);
			if (!end) {
				e.v("v", (**i4).value.get());
			}
		} else {
			bool end = *i5 == this->tr.crend();
			e.v("end", end);
			if (!end) {
				e.v("v", (**i5).value.get());
			}
		}
	}

	void invalidate(int except, int p)
	{
		for (int k = 0; k < 6; ++k) {
			this->pos[k] = k == except ? p : 0;
		}
		this->n = count(this->f);
	}

	void edited(const char* op, int i, const std::string& t, int newpos, int j = -1)
	{
		ev e(op);
		if (j >= 0) {
			e.v("j", j);
		} else if (!t.empty()) {
			e.raw("t", t);
		}
		e.raw("f", show(this->f));
		invalidate(i, newpos);
		look(e, i);
	}

	template <class I>
	size_t block(I& i)
	{
		return 1 + count((*i).children);
	}

	void exec(const tokens& t) override
	{
		const auto& op = t[0];
		if (op == "valid" || op == "acc") {
			auto p = path_of(t[1]);
			{
				if (op == "valid") {
					bool a = this->tr.is_valid(p);
					bool b = this->tr.is_valid(utki::make_span(p));
					if (p.size() == 2 && this->tr.is_valid({p[0], p[1]}) != a) {
						b = !a;
					}
					ev("valid").v("path", shown(p)).v("res", a);
					if (a != b) {
						ev("overloads_differ");
					}
				} else {
					if (!ours_valid(p)) {
						return;
					}
					const auto& ctr = this->tr;
					int v = ctr[p].value.get();
					if constexpr (!readonly) {
						if (&this->tr[p] != &ctr[utki::make_span(p)]) {
							v = -3000;
						}
						if (p.size() == 1 && &this->tr[{p[0]}] != &ctr[{p[0]}]) {
							v = -3001;
						}
					} else {
						// access through a traversal object which itself is not constant
						if (&this->tr[p] != &ctr[p] || &this->tr[utki::make_span(p)] != &ctr[p]) {
							v = -3002;
						}
						if (p.size() == 2 && &this->tr[{p[0], p[1]}] != &ctr[p]) {
							v = -3003;
						}
					}
					ev("access").v("path", shown(p)).v("v", v);
				}
			}
			return;
		}
		if (op == "walk") {
			std::vector<int> fwd, bwd, f2, f3, b2, b3;
			std::vector<std::vector<size_t>> paths;
			size_t k = 0;
			for (auto i = this->tr.begin(); i != this->tr.end() && k <= this->n + 2; ++i, ++k) {
				fwd.push_back(i->value.get());
				paths.push_back(i.index());
			}
			k = 0;
			for (auto& x : this->tr) {
				f2.push_back(x.value.get());
				if (++k > this->n + 2) {
					break;
				}
			}
			k = 0;
			for (auto i = this->tr.cbegin(); i != this->tr.cend() && k <= this->n + 2; ++i, ++k) {
				f3.push_back(i->value.get());
			}
			k = 0;
			for (auto i = this->tr.end(); i != this->tr.begin() && k <= this->n + 2; ++k) {
				--i;
				bwd.push_back(i->value.get());
			}
			k = 0;
			for (auto i = this->tr.rbegin(); i != this->tr.rend() && k <= this->n + 2; ++i, ++k) {
				b2.push_back((*i).value.get());
			}
			k = 0;
			for (auto i = this->tr.crbegin(); i != this->tr.crend() && k <= this->n + 2; ++i, ++k) {
				b3.push_back((*i).value.get());
			}
			for (auto& w : {f2, f3}) {
				if (w != fwd) {
					fwd = w;
					fwd.push_back(-1);
				}
			}
			for (auto& w : {b2, b3}) {
				if (w != bwd) {
					bwd = w;
					bwd.push_back(-1);
				}
			}
			ev("walk").v("fwd", fwd).v("bwd", bwd).v("paths", paths);
			return;
		}
		int i = int(num(t[1]));
		if (i < 0 || i > 5) {
			bad_script("iterator");
		}
		if (op == "begin" || op == "end") {
			bool b = op == "begin";
			switch (i) {
				case 0:
					i0 = b ? tr.begin() : tr.end();
					break;
				case 1:
					i1 = b ? tr.begin() : tr.end();
					break;
				case 2:
					i2 = b ? tr.cbegin() : tr.cend();
					break;
				case 3:
					i3 = b ? tr.cbegin() : tr.cend();
					break;
				case 4:
					i4 = std::make_unique<riter>(b ? tr.rbegin() : tr.rend());
					break;
				case 5:
					i5 = std::make_unique<criter>(b ? tr.crbegin() : tr.crend());
					break;
			}
			pos[i] = b == (i < 4) ? 1 : int(n) + 1;
			ev e(op);
			look(e, i);
			return;
		}
		if (op == "mk") {
			if (i > 3) {
				return;
			}
			auto p = path_of(t[2]);
			std::string r = outcome([&]() {
				switch (i) {
					case 0:
						i0 = tr.make_iterator(p);
						break;
					case 1:
						i1 = p.size() == 2 ? tr.make_iterator({p[0], p[1]}) : tr.make_iterator(utki::make_span(p));
						break;
					case 2:
						i2 = tr.make_const_iterator(p);
						break;
					case 3:
						i3 = p.size() == 2 ? tr.make_const_iterator({p[0], p[1]}) : tr.make_const_iterator(utki::make_span(p));
						break;
				}
			});
			ev e("make");
			e.v("path", shown(p)).s_("r", r);
			if (r == "ok" && ours_valid(p)) {
				pos[i] = ours_pos(p);
				look(e, i);
			} else {
				e.v("i", i);
			}
			return;
		}
		if (pos[i] == 0) {
			return; // not initialised or invalidated
		}
		if (op == "inc" || op == "dec") {
			int d = (op == "inc") == (i < 4) ? 1 : -1;
			if (pos[i] + d < 1 || pos[i] + d > int(n) + 1) {
				return;
			}
			if (i < 4) {
				with(i, [&](auto& x) {
					auto& y = d > 0 ? ++x : --x;
					if (&y != &x) {
						ev("returns_something_else");
					}
				});
			} else if (i == 4) {
				op == "inc" ? ++*i4 : --*i4;
			} else {
				op == "inc" ? ++*i5 : --*i5;
			}
			pos[i] += d;
			ev e(op);
			look(e, i);
			return;
		}
		if (op == "cp" || op == "cmp") {
			int j = int(num(t[2]));
			if (i > 3 || j > 3 || i / 2 != j / 2 || pos[j] == 0) {
				return;
			}
			if (op == "cp") {
				with(i, [&](auto& a) {
					with(j, [&](auto& b) {
						if constexpr (std::is_same_v<decltype(a), decltype(b)>) {
							a = b;
						}
					});
				});
				pos[i] = pos[j];
				ev e("copy");
				e.v("j", j);
				look(e, i);
				return;
			}
			with(i, [&](auto& a) {
				with(j, [&](auto& b) {
					if constexpr (std::is_same_v<decltype(a), decltype(b)>) {
						ev e("compare");
						e.v("i", i).v("j", j).v("eq", a == b).v("ne", a != b).v("ordered", is_random<C>::value);
						if constexpr (is_random<C>::value) {
							e.v("lt", a < b).v("gt", a > b).v("le", a <= b).v("ge", a >= b);
						}
					}
				});
			});
			return;
		}
		if constexpr (!readonly) {
			if (i > 1) {
				return;
			}
			auto& x = i == 0 ? i0 : i1;
			bool at_end = pos[i] == int(n) + 1;
			if (op == "ins" || op == "insc" || op == "insa" || op == "insac") {
				const char* s = t[2].c_str();
				auto sub = parse_forest<C>(s);
				auto& node = sub.front();
				auto text = show(sub);
				text = text.substr(1, text.size() - 2);
				bool after = op[3] == 'a';
				if (after && at_end) {
					return;
				}
				int np = pos[i] + (after ? int(block(x)) : 0);
				if (op == "ins") {
					x = tr.insert(x, std::move(node));
				} else if (op == "insc") {
					x = tr.insert(x, node);
				} else if (op == "insa") {
					x = tr.insert_after(x, std::move(node));
				} else {
					x = tr.insert_after(x, node);
				}
				if (op.back() == 'c' && show(sub) != "[" + text + "]") {
					ev("argument_changed");
				}
				edited(after ? "insert_after" : "insert", i, text, np);
			} else if (op == "insn" || op == "insan") {
				int j = int(num(t[2]));
				if (j > 1 || pos[j] == 0 || pos[j] == int(n) + 1 || (op == "insan" && at_end)) {
					return;
				}
				auto& y = j == 0 ? i0 : i1;
				int np = pos[i] + (op == "insan" ? int(block(x)) : 0);
				const auto& node = *y;
				if (op == "insn") {
					x = tr.insert(x, node);
				} else {
					x = tr.insert_after(x, node);
				}
				edited(op == "insn" ? "insert_node" : "insert_node_after", i, "", np, j);
			} else if (op == "era") {
				if (at_end) {
					return;
				}
				x = tr.erase(x);
				edited("erase", i, "", pos[i]);
			} else if (op == "set") {
				if (at_end) {
					return;
				}
				int w = int(num(t[2]));
				(*x).value = val(w);
				ev e("write");
				e.v("w", w).raw("f", show(this->f));
				look(e, i);
			} else {
				bad_script(op);
			}
		}
	}

	bool ours_valid(const std::vector<size_t>& p) const
	{
		const C* c = &this->f;
		for (auto k : p) {
			if (k >= c->size()) {
				return false;
			}
			c = &std::next(c->begin(), std::ptrdiff_t(k))->children;
		}
		return !p.empty();
	}

	int ours_pos(const std::vector<size_t>& p) const
	{
		size_t r = 0;
		const C* c = &this->f;
		for (auto k : p) {
			auto j = c->begin();
			for (size_t q = 0; q < k; ++q, ++j) {
				r += 1 + count(j->children);
			}
			r += 1;
			c = &j->children;
		}
		return int(r);
	}
};

thread_local std::unique_ptr<base> b;

template <class T, class A>
using vec = std::vector<T, A>;
template <class T, class A>
using lst = std::list<T, A>;
template <class T, class A>
using deq = std::deque<T, A>;

using vtree = utki::tree<val>;
using ltree = utki::tree<val, std::list>;
using dtree = utki::tree<val, std::deque>;

void exec(const tokens& t)
{
	if (t[0] == "forest") {
		b.reset();
		auto s = t[2].substr(1, t[2].size() - 2);
		if (t[1] == "v") {
			b = std::make_unique<impl<vtree::container_type, false>>(s);
		} else if (t[1] == "V") {
			b = std::make_unique<impl<vtree::container_type, true>>(s);
		} else if (t[1] == "l") {
			b = std::make_unique<impl<ltree::container_type, false>>(s);
		} else if (t[1] == "L") {
			b = std::make_unique<impl<ltree::container_type, true>>(s);
		} else if (t[1] == "d") {
			b = std::make_unique<impl<dtree::container_type, false>>(s);
		} else {
			bad_script("kind");
		}
		return;
	}
	if (!b) {
		bad_script("no forest");
	}
	b->exec(t);
}
} // namespace

int main()
{
	return run(
		[]() {
			b.reset();
		},
		exec
	);
}
