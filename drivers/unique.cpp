// C18: utki::unique_ref, utki::make_unique
#include <utki/unique_ref.hpp>

#include <array>
#include <map>
#include <optional>
#include <tuple>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::vector<int> dead;
thread_local int born = 0;
thread_local std::map<int, const void*> where; // address of the complete object
const std::string text = "some text which needs memory of its own";

struct counted {
	int id;
	std::string payload{"some text which needs memory of its own"};

	std::unique_ptr<int> arg;

	explicit counted(std::unique_ptr<int> a) :
		id(++born),
		arg(std::move(a))
	{}

	counted(const counted&) = delete;

	~counted()
	{
		dead.push_back(this->id);
		this->id = -1;
	}

	bool operator<(const counted& o) const
	{
		return this->id % 3 < o.id % 3;
	}

	bool operator==(const counted& o) const
	{
		return this->id % 3 == o.id % 3;
	}
};

struct base : public virtual counted {
	base(std::unique_ptr<int> a, const std::string& s) :
		counted(std::move(a))
	{
		this->payload = s;
	}

	int mark = 11;

	// what the class itself has is where it is looked for
	bool whole() const
	{
		return this->mark == 11;
	}

	virtual ~base() = default;
};

struct d1 : public base {
	d1(std::unique_ptr<int> a, const std::string& s) :
		counted(std::move(a)),
		base(nullptr, s)
	{}

	long more = 5;

	bool whole() const
	{
		return this->base::whole() && this->more == 5;
	}
};

struct other : public virtual counted {
	other(std::unique_ptr<int> a, const std::string& s) :
		counted(std::move(a))
	{
		this->payload = s;
	}

	long first = 1;

	bool whole() const
	{
		return this->first == 1;
	}

	virtual ~other() = default;
};

struct multi : public base, public other {
	multi(std::unique_ptr<int> a, const std::string& s) :
		counted(std::move(a)),
		base(nullptr, s),
		other(nullptr, s)
	{}

	bool whole() const
	{
		return this->base::whole() && this->other::whole();
	}
};

template <class T>
struct name;
#define NAME(t, n) \
	template <> \
	struct name<t> { \
		static constexpr const char* value = n; \
	};
NAME(base, "base")
NAME(const base, "cbase")
NAME(d1, "d1")
NAME(other, "other")
NAME(multi, "multi")

template <class T>
struct uref {
	using type = T;
	static constexpr char kind = 'u';
	std::optional<utki::unique_ref<T>> v;

	T* get() const
	{
		return this->v ? &this->v->get() : nullptr;
	}

	void clear()
	{
		this->v.reset();
	}
};

template <class T>
struct ptr {
	using type = T;
	static constexpr char kind = 'p';
	std::unique_ptr<T> v;

	T* get() const
	{
		return this->v.get();
	}

	void clear()
	{
		this->v.reset();
	}
};

constexpr size_t copies = 3;
thread_local std::tuple<
	std::array<uref<base>, copies>,
	std::array<uref<const base>, copies>,
	std::array<uref<d1>, copies>,
	std::array<uref<other>, copies>,
	std::array<uref<multi>, copies>,
	std::array<ptr<base>, copies>,
	std::array<ptr<const base>, copies>,
	std::array<ptr<other>, copies>>
	all;

template <class H>
std::string holder_name()
{
	return std::string(1, H::kind) + "." + name<typename H::type>::value;
}

template <class F>
void with(const std::string& n, F f)
{
	std::apply(
		[&](auto&... arrays) {
			(
				[&](auto& a) {
					using H = typename std::remove_reference_t<decltype(a)>::value_type;
					if (holder_name<H>() == n) {
						f(a);
					}
				}(arrays),
				...
			);
		},
		all
	);
}

void observe(ev& e)
{
	std::string owners = "[";
	bool intact = true;
	std::apply(
		[&](auto&... arrays) {
			(
				[&](auto& a) {
					using H = typename std::remove_reference_t<decltype(a)>::value_type;
					for (size_t i = 0; i < copies; ++i) {
						auto p = a[i].get();
						if (!p) {
							continue;
						}
						int id = -1;
						for (auto& w : where) {
							if (w.second == dynamic_cast<const void*>(p)) {
								id = w.first;
								intact = intact && p->id == id && p->payload == text && p->whole() && p->arg && *p->arg == id;
							}
						}
						owners += (owners.size() > 1 ? "," : "") + ("[\"" + holder_name<H>() + "." + std::to_string(i) + "\"," + std::to_string(id) + "]");
					}
				}(arrays),
				...
			);
		},
		all
	);
	e.raw("owners", owners + "]").v("dead", dead).v("intact", intact);
	for (auto d : dead) {
		where.erase(d);
	}
	dead.clear();
}

// the object goes from s to d; false if there is no such conversion
template <class D, class S>
bool move(D& d, S& s, bool fresh)
{
	using T = typename D::type;
	using U = typename S::type;
	if constexpr (D::kind == 'u' && S::kind == 'u') {
		if constexpr (std::is_convertible_v<U*, T*>) {
			if (d.v && !fresh) {
				*d.v = std::move(*s.v);
			} else {
				utki::unique_ref<T> r = std::move(*s.v);
				d.v.reset();
				d.v.emplace(std::move(r));
			}
			s.v.reset();
			return true;
		}
	} else if constexpr (D::kind == 'p' && S::kind == 'u' && std::is_same_v<T, U>) {
		d.v = std::move(*s.v).to_unique_ptr();
		s.v.reset();
		return true;
	} else if constexpr (D::kind == 'u' && S::kind == 'p' && std::is_same_v<T, U>) {
		if (d.v && !fresh) {
			*d.v = utki::unique_ref<T>(std::move(s.v));
		} else {
			d.v.reset();
			d.v.emplace(std::move(s.v));
		}
		return true;
	}
	return false;
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "begin") {
		return;
	}
	auto i = size_t(num(t[2]));
	const auto h = t[1] + "." + t[2];
	if (op == "make") {
		with(t[1], [&](auto& a) {
			using H = typename std::remove_reference_t<decltype(a)>::value_type;
			using T = typename H::type;
			if constexpr (H::kind == 'u') {
				auto r = utki::make_unique<T>(std::make_unique<int>(born + 1), text);
				where[r.get().id] = dynamic_cast<const void*>(&r.get());
				if (a[i].v) {
					*a[i].v = std::move(r);
				} else {
					a[i].v.emplace(std::move(r));
				}
				ev e("make");
				e.s_("h", h);
				observe(e);
			}
		});
		return;
	}
	if (op == "drop") {
		with(t[1], [&](auto& a) {
			a[i].clear();
			ev e("drop");
			e.s_("h", h);
			observe(e);
		});
		return;
	}
	auto j = size_t(num(t[4]));
	const auto g = t[3] + "." + t[4];
	if (h == g && op != "compare") {
		return;
	}
	with(t[1], [&](auto& a) {
		with(t[3], [&](auto& b) {
			using D = typename std::remove_reference_t<decltype(a)>::value_type;
			using S = typename std::remove_reference_t<decltype(b)>::value_type;
			if (!b[j].get()) {
				return;
			}
			if (op == "move" || op == "move2") {
				if (move(a[i], b[j], op == "move2")) {
					ev e("move");
					e.s_("h", h).s_("g", g);
					observe(e);
				}
			} else if (op == "compare") {
				if constexpr (std::is_same_v<D, S> && D::kind == 'u') {
					if (a[i].v) {
						const typename D::type& o = *b[j].v;
						bool eq = *a[i].v == *b[j].v;
						bool lt = *a[i].v < o;
						bool eqobj = *a[i].v == o;
						ev e("compare");
						e.s_("h", h).s_("g", g).v("eq", eq).v("lt", lt).v("eqobj", eqobj);
						observe(e);
					}
				}
			} else {
				bad_script(op);
			}
		});
	});
}

void reset()
{
	std::apply(
		[](auto&... arrays) {
			(
				[](auto& a) {
					for (auto& h : a) {
						h.clear();
					}
				}(arrays),
				...
			);
		},
		all
	);
	where.clear();
	dead.clear();
	born = 0;
}
} // namespace

int main()
{
	return run(reset, exec);
}
