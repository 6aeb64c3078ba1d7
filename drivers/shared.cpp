// C17: utki::shared_ref, utki::shared, dynamic_reference_cast, make_shared_from, make_weak, make_weak_from
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>

#include <map>
#include <optional>
#include <tuple>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::vector<int> dead;
thread_local int born = 0;
thread_local std::map<int, const void*> where; // address of the complete object

struct counted {
	int id;
	std::string payload{"some text which needs memory of its own"};

	counted() :
		id(++born)
	{}

	counted(const counted&) = delete;

	~counted()
	{
		dead.push_back(this->id);
		this->id = -1;
	}

	bool operator<(const counted& o) const
	{
		return this->id % 3 < o.id % 3;
	}

	bool operator==(const counted& o) const
	{
		return this->id % 3 == o.id % 3;
	}
};

// whole(): what the class itself has is where it is looked for
struct base : public virtual counted {
	long mark = 11;

	bool whole() const
	{
		return this->mark == 11;
	}

	virtual ~base() = default;
};

struct d1 : public base {
	long more = 5;

	bool whole() const
	{
		return this->base::whole() && this->more == 5;
	}
};

struct other : public virtual counted {
	long first = 1;

	bool whole() const
	{
		return this->first == 1;
	}

	virtual ~other() = default;
};

struct multi : public base, public other {
	bool whole() const
	{
		return this->base::whole() && this->other::whole();
	}
};

struct sha : public virtual counted, public virtual utki::shared {
	long a = 21;

	bool whole() const
	{
		return this->a == 21;
	}
};

struct shb : public virtual counted, public virtual utki::shared {
	long b = 22;

	bool whole() const
	{
		return this->b == 22;
	}
};

struct shab : public sha, public shb {
	bool whole() const
	{
		return this->sha::whole() && this->shb::whole();
	}
};

struct es : public virtual counted, public std::enable_shared_from_this<es> {
	long c = 23;

	bool whole() const
	{
		return this->c == 23;
	}

	virtual ~es() = default;
};

template <class T>
struct name;
#define NAME(t, n) \
	template <> \
	struct name<t> { \
		static constexpr const char* value = n; \
	};
NAME(base, "base")
NAME(const base, "cbase")
NAME(d1, "d1")
NAME(other, "other")
NAME(multi, "multi")
NAME(sha, "sha")
NAME(shb, "shb")
NAME(shab, "shab")
NAME(es, "es")
NAME(const es, "ces")

template <class T>
struct ref {
	using type = T;
	static constexpr char kind = 'r';
	std::optional<utki::shared_ref<T>> v;

	T* get() const
	{
		return this->v ? &this->v->get() : nullptr;
	}

	long count() const
	{
		return this->v->to_shared_ptr().use_count();
	}

	void put(utki::shared_ref<T> x, bool fresh)
	{
		if (this->v && !fresh) {
			*this->v = x; // copy assignment
		} else {
			this->v.reset();
			this->v.emplace(std::move(x));
		}
	}

	void clear()
	{
		this->v.reset();
	}
};

template <class T>
struct ptr {
	using type = T;
	static constexpr char kind = 'p';
	std::shared_ptr<T> v;

	T* get() const
	{
		return this->v.get();
	}

	long count() const
	{
		return this->v.use_count();
	}

	void clear()
	{
		this->v.reset();
	}
};

template <class T>
struct weak {
	using type = T;
	static constexpr char kind = 'w';
	std::weak_ptr<T> v;

	void clear()
	{
		this->v.reset();
	}
};

constexpr size_t copies = 3;
thread_local std::tuple<
	std::array<ref<base>, copies>,
	std::array<ref<const base>, copies>,
	std::array<ref<d1>, copies>,
	std::array<ref<other>, copies>,
	std::array<ref<multi>, copies>,
	std::array<ref<sha>, copies>,
	std::array<ref<shb>, copies>,
	std::array<ref<shab>, copies>,
	std::array<ref<es>, copies>,
	std::array<ref<const es>, copies>,
	std::array<ptr<base>, copies>,
	std::array<ptr<const base>, copies>,
	std::array<ptr<shab>, copies>,
	std::array<ptr<sha>, copies>,
	std::array<ptr<es>, copies>,
	std::array<ptr<const es>, copies>,
	std::array<weak<base>, copies>,
	std::array<weak<const base>, copies>,
	std::array<weak<shab>, copies>,
	std::array<weak<shb>, copies>,
	std::array<weak<es>, copies>,
	std::array<weak<const es>, copies>>
	all;

template <class H>
std::string holder_name()
{
	return std::string(1, H::kind) + "." + name<typename H::type>::value;
}

// calls f(holder, index) for the holder with the given name
template <class F>
void with(const std::string& n, F f)
{
	std::apply(
		[&](auto&... arrays) {
			(
				[&](auto& a) {
					using H = typename std::remove_reference_t<decltype(a)>::value_type;
					if (holder_name<H>() == n) {
						f(a);
					}
				}(arrays),
				...
			);
		},
		all
	);
}

template <class T>
int id_of(T* p, bool& intact)
{
	// the object must be the complete one that was registered, and alive
	for (auto& w : where) {
		if (w.second == dynamic_cast<const void*>(p)) {
			if (p->id != w.first || p->payload.size() != 39 || !p->whole()) {
				intact = false;
			}
			return w.first;
		}
	}
	intact = false;
	return -1;
}

void observe(ev& e)
{
	std::string strong = "[", weaks = "[", counts = "[";
	std::map<int, long> cnt;
	bool intact = true;
	auto add = [](std::string& s, const std::string& x) {
		s += (s.size() > 1 ? "," : "") + x;
	};
	std::apply(
		[&](auto&... arrays) {
			(
				[&](auto& a) {
					using H = typename std::remove_reference_t<decltype(a)>::value_type;
					for (size_t i = 0; i < copies; ++i) {
						auto n = "\"" + holder_name<H>() + "." + std::to_string(i) + "\"";
						if constexpr (H::kind == 'w') {
							auto p = a[i].v.lock();
							if (p) {
								add(weaks, "[" + n + "," + std::to_string(id_of(p.get(), intact)) + "]");
							}
						} else {
							auto p = a[i].get();
							if (p) {
								auto o = id_of(p, intact);
								add(strong, "[" + n + "," + std::to_string(o) + "]");
								auto c = a[i].count();
								auto f = cnt.find(o);
								if (f != cnt.end() && f->second != c) {
									intact = false;
								}
								cnt[o] = c;
							}
						}
					}
				}(arrays),
				...
			);
		},
		all
	);
	for (auto& c : cnt) {
		add(counts, "[" + std::to_string(c.first) + "," + std::to_string(c.second) + "]");
	}
	e.raw("strong", strong + "]").raw("weak", weaks + "]").raw("counts", counts + "]").v("dead", dead).v("intact", intact);
	for (auto d : dead) {
		where.erase(d);
	}
	dead.clear();
}

std::string full(const std::string& n, size_t i)
{
	return n + "." + std::to_string(i);
}

// dst gets what src has; false if there is no such conversion
template <class D, class S>
bool assign(D& d, S& s, bool fresh)
{
	using T = typename D::type;
	using U = typename S::type;
	if constexpr (D::kind == 'r' && S::kind == 'r') {
		if constexpr (std::is_convertible_v<U*, T*>) {
			if (fresh) {
				if constexpr (std::is_same_v<T, U>) {
					utki::shared_ref<T> r(*s.v); // copy construction
					d.put(r, true);
				} else {
					utki::shared_ref<T> r = *s.v; // implicit conversion
					d.put(r, true);
				}
			} else {
				if constexpr (std::is_same_v<T, U>) {
					if (d.v) {
						*d.v = *s.v; // copy assignment, perhaps to itself
					} else {
						d.v = s.v;
					}
				} else {
					d.put(*s.v, false);
				}
			}
			return true;
		}
	} else if constexpr (D::kind == 'p' && S::kind == 'r') {
		if constexpr (std::is_same_v<T, U>) {
			if (fresh) {
				const std::shared_ptr<T>& p = *s.v;
				d.v = p;
			} else {
				d.v = s.v->to_shared_ptr();
			}
			return true;
		} else if constexpr (std::is_same_v<T, const U>) {
			std::shared_ptr<const U> p = *s.v;
			d.v = std::move(p);
			return true;
		}
	} else if constexpr (D::kind == 'w' && S::kind == 'r') {
		if constexpr (std::is_same_v<T, U>) {
			if (fresh) {
				std::weak_ptr<T> p = *s.v;
				d.v = p;
			} else {
				d.v = utki::make_weak(*s.v);
			}
			return true;
		} else if constexpr (std::is_same_v<T, const U>) {
			std::weak_ptr<const U> p = *s.v;
			d.v = p;
			return true;
		}
	} else if constexpr (D::kind == 'r' && S::kind == 'p') {
		if constexpr (std::is_same_v<T, U>) {
			d.put(utki::shared_ref<T>(s.v), fresh);
			return true;
		}
	} else if constexpr (D::kind == 'p' && S::kind == 'w') {
		if constexpr (std::is_same_v<T, U>) {
			d.v = s.v.lock();
			return true;
		}
	} else if constexpr (D::kind == 'w' && S::kind == 'p') {
		if constexpr (std::is_same_v<T, U>) {
			d.v = utki::make_weak(s.v);
			return true;
		}
	}
	return false;
}

// references made from the object itself
template <class D, class S>
bool from_object(D& d, S& s)
{
	using T = typename D::type;
	using U = typename S::type;
	if constexpr (S::kind == 'r' && std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>> && (std::is_const_v<T> || !std::is_const_v<U>)) {
		if constexpr (std::is_base_of_v<utki::shared, T> || std::is_same_v<std::remove_const_t<T>, es>) {
			U& o = s.v->get();
			if constexpr (D::kind == 'r') {
				d.put(utki::make_shared_from(o), true);
				return true;
			} else if constexpr (D::kind == 'w') {
				d.v = utki::make_weak_from(o);
				return true;
			}
		}
	}
	return false;
}

template <class D, class S>
bool cast(D& d, S& s, std::string& r)
{
	using T = typename D::type;
	using U = typename S::type;
	if constexpr (D::kind == 'r' && S::kind == 'r' && (std::is_const_v<T> || !std::is_const_v<U>)) {
		r = outcome([&]() {
			d.put(utki::dynamic_reference_cast<T>(*s.v), true);
		});
		return true;
	}
	return false;
}

template <class H>
bool filled(const H& h)
{
	if constexpr (H::kind == 'w') {
		return true;
	} else {
		return h.get() != nullptr;
	}
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "begin") {
		return;
	}
	auto i = size_t(num(t[2]));
	const auto h = full(t[1], i);
	if (op == "make") {
		with(t[1], [&](auto& a) {
			using H = typename std::remove_reference_t<decltype(a)>::value_type;
			using T = typename H::type;
			if constexpr (H::kind == 'r') {
				auto r = utki::make_shared<T>();
				where[r.get().id] = dynamic_cast<const void*>(&r.get());
				a[i].put(std::move(r), false);
				ev e("make");
				e.s_("h", h).s_("cls", std::string(name<std::remove_const_t<T>>::value));
				observe(e);
			}
		});
		return;
	}
	if (op == "drop") {
		with(t[1], [&](auto& a) {
			a[i].clear();
			ev e("drop");
			e.s_("h", h);
			observe(e);
		});
		return;
	}
	auto j = size_t(num(t[4]));
	const auto g = full(t[3], j);
	with(t[1], [&](auto& a) {
		with(t[3], [&](auto& b) {
			using D = typename std::remove_reference_t<decltype(a)>::value_type;
			using S = typename std::remove_reference_t<decltype(b)>::value_type;
			if (!filled(b[j])) {
				return;
			}
			if (op == "assign" || op == "assign2" || op == "fromobj") {
				bool did = op == "fromobj" ? from_object(a[i], b[j]) : assign(a[i], b[j], op == "assign2");
				if (did) {
					ev e("assign");
					e.s_("h", h).s_("g", g).v("strong_dst", D::kind != 'w');
					observe(e);
				}
			} else if (op == "move" || op == "move2") {
				if constexpr (std::is_same_v<D, S> && D::kind == 'r') {
					if (i == j) {
						return;
					}
					if (op == "move" && a[i].v) {
						*a[i].v = std::move(*b[j].v);
					} else {
						utki::shared_ref<typename D::type> tmp(std::move(*b[j].v));
						a[i].v.reset();
						a[i].v.emplace(std::move(tmp));
					}
					b[j].v.reset(); // only destroyed, not used
					ev e("move");
					e.s_("h", h).s_("g", g);
					observe(e);
				}
			} else if (op == "cast") {
				std::string r;
				if (cast(a[i], b[j], r)) {
					ev e("cast");
					e.s_("h", h).s_("g", g).s_("type", name<typename D::type>::value).s_("r", r);
					observe(e);
				}
			} else if (op == "compare") {
				if constexpr (std::is_same_v<D, S> && D::kind == 'r') {
					if (filled(a[i])) {
						const typename D::type& o = *b[j].v; // implicit conversion to a reference
						bool eq = *a[i].v == *b[j].v;
						bool lt = *a[i].v < o;
						bool eqobj = *a[i].v == o;
						ev e("compare");
						e.s_("h", h).s_("g", g).v("eq", eq).v("lt", lt).v("eqobj", eqobj);
						observe(e);
					}
				}
			} else {
				bad_script(op);
			}
		});
	});
}

void reset()
{
	std::apply(
		[](auto&... arrays) {
			(
				[](auto& a) {
					for (auto& h : a) {
						h.clear();
					}
				}(arrays),
				...
			);
		},
		all
	);
	where.clear();
	dead.clear();
	born = 0;
}
} // namespace

int main()
{
	return run(reset, exec);
}
