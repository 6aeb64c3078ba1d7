// C23: utki::sort
#include <utki/sort.hpp>

#include <pthread.h>

#include <array>
#include <deque>

#include "common.hpp"

using namespace vf;

namespace {
struct elem {
	int k, tag;
};

// the key lives in memory of its own
struct heavy {
	std::unique_ptr<int> k;
	int tag;

	heavy(int k = -1, int tag = -1) :
		k(std::make_unique<int>(k)),
		tag(tag)
	{}

	heavy(const heavy& o) :
		k(o.k ? std::make_unique<int>(*o.k) : nullptr),
		tag(o.tag)
	{}

	heavy(heavy&&) = default;

	heavy& operator=(const heavy& o)
	{
		this->k = o.k ? std::make_unique<int>(*o.k) : nullptr;
		this->tag = o.tag;
		return *this;
	}

	heavy& operator=(heavy&&) = default;
};

constexpr int key(const elem& e)
{
	return e.k;
}

int key(const heavy& e)
{
	return e.k ? *e.k : -1000000;
}

// elements of std::vector<bool> are not accessed by reference
int key(bool b)
{
	return b;
}

int key(char c)
{
	return c;
}

template <class E>
constexpr int tag(const E& e)
{
	if constexpr (std::is_integral_v<E>) {
		return 0;
	} else {
		return e.tag;
	}
}

constexpr bool operator<(const elem& a, const elem& b)
{
	return a.k < b.k;
}

bool operator<(const heavy& a, const heavy& b)
{
	return key(a) < key(b);
}

enum order {
	less,
	greater,
	mod,
	pair,
	none
};

const char* const names[] = {"less", "greater", "mod", "pair", "none"};

template <class E>
constexpr bool before(int o, const E& a, const E& b)
{
	switch (o) {
		case less:
			return key(a) < key(b);
		case greater:
			return key(a) > key(b);
		case mod:
			return key(a) % 10 < key(b) % 10;
		case pair:
			return key(a) < key(b) || (key(a) == key(b) && tag(a) > tag(b));
		default:
			return false;
	}
}

template <class C>
std::vector<std::vector<int>> shown(const C& c)
{
	std::vector<std::vector<int>> r;
	for (const auto& e : c) {
		r.push_back({key(e), tag(e)});
	}
	return r;
}

template <class C>
void put(C& c, const elem& e)
{
	c.push_back({e.k, e.tag});
}

void put(std::vector<bool>& c, const elem& e)
{
	c.push_back(e.k % 2 != 0);
}

void put(std::string& c, const elem& e)
{
	c.push_back(char(e.k & 127));
}

// sort in a thread which has the small stack threads get on some systems
thread_local bool small_stack = false;

template <class F>
void on_stack(F f)
{
	if (!small_stack) {
		f();
		return;
	}
	pthread_attr_t a;
	pthread_t th{};
	if (pthread_attr_init(&a) != 0 || pthread_attr_setstacksize(&a, size_t(256) * 1024) != 0 ||
		pthread_create(
			&th,
			&a,
			[](void* p) -> void* {
				(*static_cast<F*>(p))();
				return nullptr;
			},
			&f
		) != 0)
	{
		bad_script("thread");
	}
	pthread_join(th, nullptr);
	pthread_attr_destroy(&a);
}

template <class C, class I>
void sort_now(const C& c, I b, I e, int o, bool plain)
{
	if (plain && o == less) {
		utki::sort(b, e);
		return;
	}
	using E = typename C::value_type;
	utki::sort(b, e, [o](const E& x, const E& y) {
		return before(o, x, y);
	});
}

template <class C, class I>
void do_sort(const C& c, I b, I e, int o, bool plain)
{
	on_stack([&]() {
		sort_now(c, b, e, o, plain);
	});
}

template <class C>
void run_on(const std::vector<elem>& in, size_t from, size_t to, int o, char how)
{
	C c;
	for (auto& e : in) {
		put(c, e);
	}
	auto s = shown(c);
	bool rev = how == 'r';
	if (rev) {
		// sort through reverse iterators, which sorts the mirrored range; shown mirrored too
		auto n = c.size();
		do_sort(c, std::make_reverse_iterator(c.begin() + std::ptrdiff_t(n - from)), std::make_reverse_iterator(c.begin() + std::ptrdiff_t(n - to)), o, false);
		// position i of the reverse range is position n-1-i
		auto t = shown(c);
		std::reverse(s.begin(), s.end());
		std::reverse(t.begin(), t.end());
		ev("sort").s_("o", names[o]).v("before", s).v("after", t).v("from", from).v("to", to);
		return;
	}
	do_sort(c, c.begin() + std::ptrdiff_t(from), c.begin() + std::ptrdiff_t(to), o, how == 'p');
	ev("sort").s_("o", names[o]).v("before", s).v("after", shown(c)).v("from", from).v("to", to);
}

// constant evaluation
template <size_t n>
struct result {
	std::array<elem, n> before{}, after{};
	size_t from = 0, to = 0;
	int o = 0;
};

template <size_t n>
constexpr result<n> at_compile_time(unsigned seed, int range, int o, size_t from, size_t to)
{
	result<n> r;
	unsigned x = seed * 2654435761u + 12345u;
	for (size_t i = 0; i < n; ++i) {
		x = x * 1664525u + 1013904223u;
		r.before[i] = elem{int((x >> 16) % unsigned(range)), int(i % 4)};
	}
	r.after = r.before;
	r.from = from;
	r.to = to;
	r.o = o;
	if (o == less) {
		utki::sort(r.after.data() + from, r.after.data() + to);
	} else {
		utki::sort(r.after.begin() + from, r.after.begin() + to, [o](const elem& a, const elem& b) {
			return before(o, a, b);
		});
	}
	return r;
}

template <size_t n>
void put(const result<n>& r)
{
	ev("sort").s_("o", names[r.o]).v("before", shown(r.before)).v("after", shown(r.after)).v("from", r.from).v("to", r.to);
}

template <size_t n, int seed>
void constants()
{
	static constexpr auto a = at_compile_time<n>(seed, 1000, less, 0, n);
	put(a);
	static constexpr auto b = at_compile_time<n>(seed + 1, 3, less, 0, n);
	put(b);
	static constexpr auto c = at_compile_time<n>(seed + 2, 40, mod, n / 4, n - n / 5);
	put(c);
	static constexpr auto d = at_compile_time<n>(seed + 3, 5, pair, 0, n);
	put(d);
	static constexpr auto e = at_compile_time<n>(seed + 4, 9, greater, 0, n);
	put(e);
	static constexpr auto f = at_compile_time<n>(seed + 5, 2, none, 0, n);
	put(f);
}

void exec(const tokens& t)
{
	if (t[0] == "constants") {
		constants<1, 1>();
		constants<2, 10>();
		constants<3, 20>();
		constants<4, 30>();
		constants<5, 40>();
		constants<7, 50>();
		constants<10, 60>();
		constants<17, 70>();
		constants<20, 80>();
		constants<50, 90>();
		return;
	}
	if (t[0] == "small") {
		small_stack = true;
		return;
	}
	// sort container how order from to keys...
	if (t[0] != "sort" || t[2].size() != 1) {
		bad_script(t[0]);
	}
	int o = int(num(t[3]));
	size_t from = size_t(num(t[4]));
	size_t to = size_t(num(t[5]));
	std::vector<elem> in;
	for (size_t i = 6; i < t.size(); ++i) {
		in.push_back({int(num(t[i])), t.size() > 500 ? int(i) : int((i * 7 + i / 3) % 5)});
	}
	if (from > to || to > in.size()) {
		bad_script("range");
	}
	char how = t[2][0];
	if (t[1] == "v") {
		run_on<std::vector<elem>>(in, from, to, o, how);
	} else if (t[1] == "h") {
		run_on<std::vector<heavy>>(in, from, to, o, how);
	} else if (t[1] == "b") {
		run_on<std::vector<bool>>(in, from, to, o, how);
	} else if (t[1] == "s") {
		run_on<std::string>(in, from, to, o, how);
	} else if (t[1] == "d") {
		run_on<std::deque<heavy>>(in, from, to, o, how);
	} else {
		bad_script("container");
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			small_stack = false;
		},
		exec
	);
}
