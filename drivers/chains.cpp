// C17, C18: objects which own one another through utki::shared_ref, utki::unique_ref; arguments of make_shared, make_unique
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>

#include <array>
#include <map>
#include <optional>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::vector<int> dead;
thread_local int born = 0;
thread_local int copies = 0;
thread_local int moves = 0;

// something which counts how often it is copied and moved
struct cargo {
	std::string s;

	explicit cargo(std::string s) :
		s(std::move(s))
	{}

	cargo(const cargo& o) :
		s(o.s)
	{
		++copies;
	}

	cargo(cargo&& o) noexcept :
		s(std::move(o.s))
	{
		o.s.clear();
		++moves;
	}

	cargo& operator=(const cargo&) = delete;
	cargo& operator=(cargo&&) = delete;
};

struct taker {
	const std::vector<int>* address;
	const cargo* kept;
	cargo own;

	taker(int& changed, cargo&& c, const std::vector<int>& v, const cargo& k) :
		address(&v),
		kept(&k),
		own(std::move(c))
	{
		++changed;
	}
};

template <template <class> class ref, bool sole>
struct world {
	struct node;
	static thread_local std::map<int, node*> living;

	struct node {
		int id;
		std::optional<ref<node>> next;

		node() :
			id(++born)
		{
			living[this->id] = this;
		}

		node(const node&) = delete;

		virtual ~node()
		{
			dead.push_back(this->id);
			living.erase(this->id);
			this->id = -1;
		}
	};

	struct special : public node {
		std::string more{"some text which needs memory of its own"};
	};

	static_assert(sizeof(special) > 0, "makes the compiler look at the class before the references to it");

	std::array<std::optional<ref<node>>, 3> base;
	std::optional<ref<special>> derived;

	static int id_of(const ref<node>& r)
	{
		return r.get().id;
	}

	void see(ev& e)
	{
		std::string r = "[";
		for (size_t i = 0; i < this->base.size(); ++i) {
			if (this->base[i]) {
				r += (r.size() > 1 ? ",[\"" : "[\"") + std::to_string(i) + "\"," + std::to_string(id_of(*this->base[i])) + "]";
			}
		}
		if (this->derived) {
			r += (r.size() > 1 ? ",[\"3\"," : "[\"3\",") + std::to_string(this->derived->get().id) + "]";
		}
		e.raw("roots", r + "]");
		std::vector<std::vector<int>> n;
		for (const auto& [i, p] : living) {
			n.push_back({i, p->next ? id_of(*p->next) : 0});
		}
		e.v("nexts", n);
		e.v("dead", dead);
		dead.clear();
	}

	node* obj(int x)
	{
		if (x == 3) {
			return this->derived ? &this->derived->get() : nullptr;
		}
		return this->base.at(size_t(x)) ? &this->base[size_t(x)]->get() : nullptr;
	}

	static bool reaches(node* from, node* to)
	{
		for (; from; from = from->next ? &from->next->get() : nullptr) {
			if (from == to) {
				return true;
			}
		}
		return false;
	}

	void clear(int x)
	{
		if (x == 3) {
			this->derived.reset();
		} else {
			this->base[size_t(x)].reset();
		}
	}

	// a slot becomes what a reference is: by assignment if it holds something, by construction otherwise
	template <class to, class from>
	static void put(std::optional<ref<to>>& s, from&& r)
	{
		if (s) {
			*s = std::forward<from>(r);
		} else {
			s.emplace(std::forward<from>(r));
		}
	}

	template <class make>
	void exec(const tokens& t, make&& m)
	{
		const auto& op = t[0];
		int x = int(num(t.at(2)));
		int y = t.size() > 3 ? int(num(t[3])) : 0;
		if (x < 0 || x > 3 || y < 0 || y > 3) {
			bad_script("root");
		}
		auto ix = size_t(x);
		auto iy = size_t(y);
		auto* ox = this->obj(x);
		auto* oy = this->obj(y);
		auto done = [&]() {
			ev e(op);
			e.s_("x", t[2]);
			if (t.size() > 3) {
				e.s_("y", t[3]);
			}
			if (op == "make") {
				e.v("o", born);
			}
			this->see(e);
		};
		if (op == "make") {
			if (x == 3) {
				put(this->derived, m.template operator()<special>());
			} else {
				put(this->base[ix], m.template operator()<node>());
			}
		} else if (op == "drop") {
			this->clear(x);
		} else if (op == "cut") {
			if (!ox) {
				return;
			}
			ox->next.reset();
		} else if (op == "move") {
			if (!oy || x == y || x == 3) {
				return;
			}
			if (y == 3) {
				put(this->base[ix], std::move(*this->derived));
			} else {
				put(this->base[ix], std::move(*this->base[iy]));
			}
			this->clear(y);
		} else if (op == "swap") {
			if (!ox || !oy || x == y || x == 3 || y == 3) {
				return;
			}
			using std::swap;
			swap(*this->base[ix], *this->base[iy]);
		} else if (op == "linkmove") {
			if (!ox || !oy || x == y || reaches(oy, ox)) {
				return;
			}
			if (y == 3) {
				put(ox->next, std::move(*this->derived));
			} else {
				put(ox->next, std::move(*this->base[iy]));
			}
			this->clear(y);
		} else if (op == "popmove") {
			if (!ox || !ox->next || x == 3) {
				return;
			}
			int id = ox->id;
			*this->base[ix] = std::move(*ox->next);
			// if somebody else refers to that object
			if (auto i = living.find(id); i != living.end()) {
				i->second->next.reset();
			}
		} else if (op == "splicemove") {
			if (!ox || !ox->next || !ox->next->get().next) {
				return;
			}
			int id = ox->next->get().id;
			*ox->next = std::move(*ox->next->get().next);
			if (auto i = living.find(id); i != living.end()) {
				i->second->next.reset();
			}
		} else if (op == "take") {
			if (!ox || !ox->next || y == 3) {
				return;
			}
			int id = ox->id;
			put(this->base[iy], std::move(*ox->next));
			if (auto i = living.find(id); i != living.end()) {
				i->second->next.reset();
			}
		} else if constexpr (!sole) {
			if (op == "assign") {
				if (!oy || x == 3) {
					return;
				}
				if (y == 3) {
					put(this->base[ix], *this->derived);
				} else {
					put(this->base[ix], *this->base[iy]);
				}
			} else if (op == "link") {
				if (!ox || !oy || reaches(oy, ox)) {
					return;
				}
				if (y == 3) {
					put(ox->next, *this->derived);
				} else {
					put(ox->next, *this->base[iy]);
				}
			} else if (op == "pop") {
				if (!ox || !ox->next || x == 3) {
					return;
				}
				*this->base[ix] = *ox->next;
			} else if (op == "splice") {
				if (!ox || !ox->next || !ox->next->get().next) {
					return;
				}
				*ox->next = *ox->next->get().next;
			} else {
				bad_script(op);
			}
		} else {
			bad_script(op);
		}
		done();
	}

	void reset()
	{
		for (auto& b : this->base) {
			b.reset();
		}
		this->derived.reset();
	}
};

template <template <class> class ref, bool sole>
thread_local std::map<int, typename world<ref, sole>::node*> world<ref, sole>::living;

struct make_s {
	template <class T>
	auto operator()()
	{
		return utki::make_shared<T>();
	}
};

struct make_u {
	template <class T>
	auto operator()()
	{
		return utki::make_unique<T>();
	}
};

thread_local world<utki::shared_ref, false> shared;
thread_local world<utki::unique_ref, true> unique;

template <class make>
void args(int given, const std::string& text, make&& m)
{
	int changed = given;
	cargo sent(text);
	const cargo kept(text);
	const std::vector<int> v{1, 2, 3};
	copies = 0;
	moves = 0;
	auto r = m(changed, std::move(sent), v, kept);
	int c = copies;
	int mv = moves;
	const taker& t = r.get();
	ev("args")
		.v("given", given)
		.v("changed", changed)
		.v("sent", text)
		.v("got", t.own.s)
		.v("left", sent.s.size())
		.v("same", t.address == &v)
		.v("kept", t.kept == &kept)
		.v("copies", c)
		.v("moves", mv);
}

void exec(const tokens& t)
{
	if (t[0] == "begin") {
		return;
	}
	if (t.size() < 3) {
		bad_script(t[0]);
	}
	if (t[0] == "args") {
		auto given = int(num(t[2]));
		std::string text(size_t(num(t.at(3))), 'x');
		if (t[1] == "s") {
			args(given, text, [](auto&&... a) {
				return utki::make_shared<taker>(std::forward<decltype(a)>(a)...);
			});
		} else {
			args(given, text, [](auto&&... a) {
				return utki::make_unique<taker>(std::forward<decltype(a)>(a)...);
			});
		}
	} else if (t[1] == "s") {
		shared.exec(t, make_s());
	} else if (t[1] == "u") {
		unique.exec(t, make_u());
	} else {
		bad_script(t[1]);
	}
}

void reset()
{
	shared.reset();
	unique.reset();
	dead.clear();
	born = 0;
}
} // namespace

int main()
{
	return run(reset, exec);
}
