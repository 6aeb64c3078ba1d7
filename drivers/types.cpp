// C32: utki/type_traits.hpp, utki/variant.hpp, utki/macros.hpp, utki::offset_sequence, utki::destructable
#include <utki/debug.hpp>
#include <utki/destructable.hpp>
#include <utki/macros.hpp>
#include <utki/types.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>

#include <map>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>

#include "common.hpp"

using namespace vf;

namespace {
std::string quoted(const std::vector<std::string>& v)
{
	std::string r;
	for (auto& s : v) {
		r += (r.empty() ? "\"" : ",\"") + s + "\"";
	}
	return "[" + r + "]";
}

// index_of
template <int n>
struct ty;

struct some {
	int x;

	some(int x = 0) :
		x(x)
	{}
};

#define TY(n, ...) \
	template <> \
	struct ty<n> { \
		using type = __VA_ARGS__; \
	};
TY(0, bool)
TY(1, int)
TY(2, long)
TY(3, double)
TY(4, std::string)
TY(5, const char*)
TY(6, some)
TY(7, std::monostate)
TY(8, std::vector<int>)
TY(9, std::vector<long>)
TY(10, char)
TY(11, unsigned)
TY(12, std::unique_ptr<int>)
TY(13, const int)
TY(14, std::variant<int, bool>)

template <int... i>
void variant_of()
{
	using v = std::variant<typename ty<i>::type...>;
	std::vector<int> l{i...};
	(ev("index").v("l", l).v("x", i).v("r", size_t(utki::index_of_v<typename ty<i>::type, v>)).v(
		 "dyn",
		 v(std::in_place_type<typename ty<i>::type>).index()
	 ),
	 ...);
}

template <int depth, int n, int... i>
void variants();

template <int depth, int n, int j, int... i>
void variants_with()
{
	if constexpr (((i != j) && ...)) {
		variants<depth, n, i..., j>();
	}
}

template <int depth, int n, int... i, int... j>
void variants_next(std::integer_sequence<int, j...>, std::integer_sequence<int, i...>)
{
	(variants_with<depth, n, j, i...>(), ...);
}

template <int depth, int n, int... i>
void variants()
{
	if constexpr (sizeof...(i) > 0) {
		variant_of<i...>();
	}
	if constexpr (sizeof...(i) < depth) {
		variants_next<depth, n>(std::make_integer_sequence<int, n>(), std::integer_sequence<int, i...>());
	}
}

// uint_size, int_size
template <size_t k>
void room()
{
	using u = typename utki::uint_size<k>::type;
	using s = typename utki::int_size<k>::type;
	ev("room").v("k", k).v("bytes", sizeof(u)).v("signed", false).v("max", std::numeric_limits<u>::digits).v(
		"kind",
		std::is_integral_v<u> && std::is_unsigned_v<u>
	);
	ev("room").v("k", k).v("bytes", sizeof(s)).v("signed", true).v("max", std::numeric_limits<s>::digits).v("kind", std::is_integral_v<s> && std::is_signed_v<s>);
}

template <size_t... k>
void rooms(std::index_sequence<k...>)
{
	(room<k + 1>(), ...);
}

// is_specialization_of
template <class... t>
struct mine {};

template <class t, class u = int>
struct defaulted {};

struct derived : std::vector<int> {};

template <template <class...> class templ, class t>
void asked(const char* made, const char* name)
{
	ev("specialization")
		.s_("made", made)
		.s_("asked", name)
		.v("r", bool(utki::is_specialization_of<templ, t>::value))
		.v("rv", bool(utki::is_specialization_of_v<templ, t>));
}

template <class t>
void made(const char* from)
{
	asked<std::vector, t>(from, "vector");
	asked<std::map, t>(from, "map");
	asked<std::unordered_map, t>(from, "unordered_map");
	asked<std::optional, t>(from, "optional");
	asked<std::tuple, t>(from, "tuple");
	asked<std::pair, t>(from, "pair");
	asked<std::basic_string, t>(from, "basic_string");
	asked<std::variant, t>(from, "variant");
	asked<std::shared_ptr, t>(from, "shared_ptr");
	asked<mine, t>(from, "mine");
	asked<defaulted, t>(from, "defaulted");
}

// enumerations
enum plain_enum { pe_a };
enum plain_char : char { pc_a };
enum plain_64 : uint64_t { p64_a };
enum class scoped_enum { a };
enum class scoped_bool : bool { a };
enum class scoped_char : char { a };
enum class scoped_64 : int64_t { a };
enum class scoped_declared : short;

struct holder {
	enum inner_plain { a };
	enum struct inner_scoped { a };
};

union some_union {
	int x;
};

template <class t>
void scoped(bool is)
{
	ev("scoped").v("is", is).v("r", bool(utki::is_scoped_enum<t>::value)).v("rv", bool(utki::is_scoped_enum_v<t>));
}

// type or void
struct with_int {
	using type = int;
};

struct with_void {
	using type = void;
};

struct with_class {
	struct type {};
};

struct with_value {
	int type;
};

struct with_other {
	using value_type = int;
};

struct inherits : with_int {};

template <class t>
std::string type_name()
{
	return std::is_same_v<t, void> ? "void" :
		std::is_same_v<t, int>	   ? "int" :
		std::is_same_v<t, with_class::type> ? "class" :
											  "other";
}

template <class t>
void has_type(const char* type)
{
	ev("has_type").s_("type", type).v("r", bool(utki::is_type_defined<t>::value)).s_("t", type_name<utki::type_or_void_t<t>>());
	ev("has_type").s_("type", type).v("r", bool(utki::is_type_defined<t>::value)).s_("t", type_name<typename utki::type_or_void<t>::type>());
}

// layers of a type
template <class t>
void layers(std::vector<std::string>& l)
{
	if constexpr (std::is_lvalue_reference_v<t>) {
		l.push_back("lref");
		layers<std::remove_reference_t<t>>(l);
	} else if constexpr (std::is_rvalue_reference_v<t>) {
		l.push_back("rref");
		layers<std::remove_reference_t<t>>(l);
	} else if constexpr (std::is_const_v<t>) {
		l.push_back("const");
		layers<std::remove_const_t<t>>(l);
	} else if constexpr (std::is_volatile_v<t>) {
		l.push_back("volatile");
		layers<std::remove_volatile_t<t>>(l);
	} else if constexpr (std::is_pointer_v<t>) {
		l.push_back("ptr");
		layers<std::remove_pointer_t<t>>(l);
	}
}

template <class t>
std::string layers_of()
{
	std::vector<std::string> l;
	layers<t>(l);
	return quoted(l);
}

template <class t>
void removed()
{
	ev("remove_ref").raw("t", layers_of<t>()).raw("r", layers_of<utki::remove_const_reference_t<t>>());
	ev("remove_ref").raw("t", layers_of<t>()).raw("r", layers_of<typename utki::remove_const_reference<t>::type>());
	if constexpr (!std::is_volatile_v<std::remove_pointer_t<t>> && !std::is_reference_v<t>) {
		ev("remove_ptr").raw("t", layers_of<t>()).raw("r", layers_of<utki::remove_const_pointer_t<t>>());
		ev("remove_ptr").raw("t", layers_of<t>()).raw("r", layers_of<typename utki::remove_const_pointer<t>::type>());
	}
}

template <int depth, class t>
void layered()
{
	removed<t>();
	removed<t&>();
	removed<t&&>();
	if constexpr (depth > 0) {
		if constexpr (!std::is_const_v<t> && !std::is_volatile_v<t>) {
			layered<depth - 1, const t>();
			layered<depth - 1, volatile t>();
			layered<depth - 1, const volatile t>();
		}
		layered<depth - 1, t*>();
	}
}

// readable names
} // namespace

namespace naming {
class thing
{};

enum class choice {
	yes
};

template <class... t>
struct wrap {
	struct inner {};
};
} // namespace naming

namespace {
template <class t>
struct structure;

#define PLAIN_TYPE(t) \
	template <> \
	struct structure<t> { \
		static std::string get() \
		{ \
			return "[\"plain\",\"" #t "\"]"; \
		} \
	};
PLAIN_TYPE(bool)
PLAIN_TYPE(char)
PLAIN_TYPE(signed char)
PLAIN_TYPE(unsigned char)
PLAIN_TYPE(short)
PLAIN_TYPE(int)
PLAIN_TYPE(unsigned int)
PLAIN_TYPE(unsigned long)
PLAIN_TYPE(float)
PLAIN_TYPE(double)
PLAIN_TYPE(void)
PLAIN_TYPE(naming::thing)
PLAIN_TYPE(naming::choice)

#define LAYER(what, name) \
	template <class t> \
	struct structure<what> { \
		static std::string get() \
		{ \
			return "[\"" name "\"," + structure<t>::get() + (std::string(name).find('[') == std::string::npos ? "]" : "]]"); \
		} \
	};
LAYER(t*, "ptr")
LAYER(t&, "lref")
LAYER(t&&, "rref")
LAYER(const t, "const")
LAYER(volatile t, "volatile")
LAYER(const volatile t, "volatile\",[\"const")

template <class... t>
struct structure<naming::wrap<t...>> {
	static std::string get()
	{
		std::string s;
		((s += (s.empty() ? "" : ",") + structure<t>::get()), ...);
		return "[\"template\",\"naming::wrap\",[" + s + "]]";
	}
};

template <class t>
void named()
{
	ev("name").raw("t", structure<t>::get()).s_("r", utki::demangle(typeid(t)));
}

template <int depth, class t>
void names()
{
	named<t>();
	if constexpr (!std::is_void_v<t>) {
		named<t&>();
		named<naming::wrap<t&, int>>();
	}
	named<naming::wrap<t*>>();
	named<naming::wrap<t, char>>();
	named<naming::wrap<const t*, naming::wrap<t, int, t>*, bool>>();
	if constexpr (depth > 0) {
		if constexpr (!std::is_const_v<t> && !std::is_volatile_v<t>) {
			names<depth - 1, const t>();
			names<depth - 1, volatile t>();
		}
		names<depth - 1, t*>();
	}
}

// sequences
template <size_t... i>
std::vector<size_t> list(std::index_sequence<i...>)
{
	return {i...};
}

template <size_t n, size_t... i>
void offset()
{
	ev("offset").v("l", std::vector<size_t>{i...}).v("n", n).v("r", list(utki::offset_sequence_t<n, std::index_sequence<i...>>())).v("x", 0);
	ev("offset").v("l", std::vector<size_t>{i...}).v("n", n).v("r", list(typename utki::offset_sequence<n, std::index_sequence<i...>>::type())).v("x", 0);
}

template <size_t n>
void offsets()
{
	offset<n>();
	offset<n, 0>();
	offset<n, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>();
	offset<n, 5, 3, 3, 100, 0, 70000>();
}

// visiting
template <class t>
const char* code()
{
	return std::is_same_v<t, int> ? "int" :
		std::is_same_v<t, double> ? "double" :
		std::is_same_v<t, std::string> ? "string" :
		std::is_same_v<t, bool> ? "bool" :
		std::is_same_v<t, some> ? "some" :
								  "char";
}

using visited = std::variant<int, double, std::string, bool, some, char>;

bool operator==(const some& a, const some& b)
{
	return a.x == b.x;
}

// a handler with a state of its own, so that it is seen which object is called
template <class t>
struct handler {
	std::vector<const char*> names;
	const visited* arg;

	std::pair<std::string, bool> operator()(const t& x) const
	{
		auto p = std::get_if<t>(this->arg);
		return {this->names.at(0), p && *p == x};
	}
};

template <class... h>
void visit_all(bool any)
{
	std::vector<visited> values{1, 2.5, std::string("text"), true, some(7), 'c'};
	for (auto& x : values) {
		std::string t = std::visit(
			[](const auto& y) {
				return std::string(code<std::decay_t<decltype(y)>>());
			},
			x
		);
		std::vector<std::string> own{code<h>()...};
		auto generic = [&x](const auto& y) -> std::pair<std::string, bool> {
			auto p = std::get_if<std::decay_t<decltype(y)>>(&x);
			return {"any", p && *p == y};
		};
		auto r = std::visit(utki::overloaded{handler<h>{{code<h>()}, &x}..., generic}, x);
		ev("visit").raw("h", quoted(own)).s_("x", t).s_("r", r.first).v("same", r.second);
		auto q = std::visit(utki::overloaded{generic, handler<h>{{code<h>()}, &x}...}, x);
		ev("visit").raw("h", quoted(own)).s_("x", t).s_("r", q.first).v("same", q.second);
		if constexpr (sizeof...(h) == 6) {
			auto o = utki::overloaded{handler<h>{{code<h>()}, &x}...};
			auto s = std::visit(o, x);
			ev("visit").raw("h", quoted(own)).s_("x", t).s_("r", s.first).v("same", s.second);
		}
	}
}

// macros
#define M1(...) 1
#define M2(...) 2
#define M3(...) 3
#define M4(...) 4
#define M5(...) 5
#define M6(...) 6
#define M7(...) 7
#define M8(...) 8
#define M9(...) 9
#define M10(...) 10
#define PICK(...) UTKI_GET_MACRO(__VA_ARGS__, M10, M9, M8, M7, M6, M5, M4, M3, M2, M1, 0)(__VA_ARGS__)

void facts()
{
	variants<3, 7>();
	variant_of<7, 8, 9, 10, 11, 12, 13, 14, 0, 1, 2, 3, 4, 5, 6>();
	variant_of<14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>();
	variant_of<1, 13>();
	variant_of<13, 1>();
	variant_of<8, 9>();
	variant_of<9, 8>();

	rooms(std::make_index_sequence<8>());

	made<std::vector<int>>("vector");
	made<std::vector<std::vector<bool>>>("vector");
	made<std::vector<std::map<int, int>>>("vector");
	made<std::map<int, std::vector<int>>>("map");
	made<std::map<int, int, std::greater<>>>("map");
	made<std::unordered_map<int, std::map<int, int>>>("unordered_map");
	made<std::optional<std::tuple<>>>("optional");
	made<std::tuple<>>("tuple");
	made<std::tuple<std::tuple<int>>>("tuple");
	made<std::tuple<int, long, std::vector<int>>>("tuple");
	made<std::pair<int, int>>("pair");
	made<std::pair<std::pair<int, int>, std::tuple<>>>("pair");
	made<std::string>("basic_string");
	made<std::u32string>("basic_string");
	made<std::variant<std::vector<int>, int>>("variant");
	made<std::shared_ptr<std::map<int, int>>>("shared_ptr");
	made<mine<>>("mine");
	made<mine<mine<int>, int, int, int>>("mine");
	made<defaulted<int>>("defaulted");
	made<defaulted<int, long>>("defaulted");
	made<int>("none");
	made<void>("none");
	made<some>("none");
	made<derived>("none");
	made<const std::vector<int>>("none");
	made<std::vector<int>&>("none");
	made<std::vector<int>*>("none");
	made<std::array<int, 3>>("none");
	made<std::multimap<int, int>>("none");
	made<std::unique_ptr<std::vector<int>>>("none");

	scoped<plain_enum>(false);
	scoped<plain_char>(false);
	scoped<plain_64>(false);
	scoped<holder::inner_plain>(false);
	scoped<scoped_enum>(true);
	scoped<scoped_bool>(true);
	scoped<scoped_char>(true);
	scoped<scoped_64>(true);
	scoped<scoped_declared>(true);
	scoped<holder::inner_scoped>(true);
	scoped<int>(false);
	scoped<bool>(false);
	scoped<void>(false);
	scoped<some>(false);
	scoped<some_union>(false);
	scoped<std::string>(false);
	scoped<scoped_enum&>(false);
	scoped<scoped_enum*>(false);
	scoped<int()>(false);

	has_type<with_int>("int");
	has_type<with_void>("void");
	has_type<with_class>("class");
	has_type<with_value>("none");
	has_type<with_other>("none");
	has_type<inherits>("int");
	has_type<int>("none");
	has_type<void>("none");
	has_type<std::vector<int>>("none");
	has_type<std::integral_constant<int, 1>>("other");
	has_type<std::remove_const<const int>>("int");
	has_type<std::enable_if<false, int>>("none");
	has_type<std::enable_if<true, int>>("int");

	layered<3, char>();
	layered<2, some>();
	layered<2, std::string>();
	layered<2, int[3]>();

	names<2, char>();
	names<1, bool>();
	names<1, signed char>();
	names<1, unsigned char>();
	names<1, short>();
	names<2, int>();
	names<1, unsigned int>();
	names<1, unsigned long>();
	names<1, float>();
	names<1, double>();
	names<1, void>();
	names<2, naming::thing>();
	names<2, naming::choice>();
	named<naming::wrap<>>();
	named<naming::wrap<int, naming::wrap<>*, char>>();
	named<naming::wrap<naming::wrap<naming::wrap<int>*>*, naming::wrap<char>* const*, bool>>();

	offsets<0>();
	offsets<1>();
	offsets<17>();
	offsets<100000>();

	ev("constant").s_("name", "byte_bits").v("k", 0).v("r", utki::byte_bits);
	ev("constant").s_("name", "nibble_bits").v("k", 0).v("r", utki::nibble_bits);
	ev("constant").s_("name", "num_bits_in_byte").v("k", 0).v("r", utki::num_bits_in_byte);
	ev("constant").s_("name", "num_bits_in_nibble").v("k", 0).v("r", utki::num_bits_in_nibble);
	ev("constant").s_("name", "lower_nibble_mask").v("k", 0).v("r", utki::lower_nibble_mask);
	ev("constant").s_("name", "upper_nibble_mask").v("k", 0).v("r", utki::upper_nibble_mask);
	ev("constant").s_("name", "byte_mask").v("k", 0).v("r", utki::byte_mask);
	int k = 0;
	for (int m : {utki::bit_0_mask, utki::bit_1_mask, utki::bit_2_mask, utki::bit_3_mask, utki::bit_4_mask, utki::bit_5_mask, utki::bit_6_mask, utki::bit_7_mask})
	{
		ev("constant").s_("name", "bit_mask").v("k", k).v("r", m);
		++k;
	}

	visit_all<>(true);
	visit_all<int>(true);
	visit_all<double>(true);
	visit_all<std::string>(true);
	visit_all<bool>(true);
	visit_all<int, double>(true);
	visit_all<double, int>(true);
	visit_all<bool, int, char>(true);
	visit_all<some, std::string>(true);
	visit_all<std::string, some, bool, double>(true);
	visit_all<int, double, std::string, bool, some, char>(true);
	visit_all<char, some, bool, std::string, double, int>(true);

	ev("macro").v("n", 1).v("r", PICK(a));
	ev("macro").v("n", 2).v("r", PICK(a, b));
	ev("macro").v("n", 3).v("r", PICK(a, b, c));
	ev("macro").v("n", 4).v("r", PICK(a, b, c, d));
	ev("macro").v("n", 5).v("r", PICK(a, b, c, d, e));
	ev("macro").v("n", 6).v("r", PICK(a, b, c, d, e, f));
	ev("macro").v("n", 7).v("r", PICK(a, b, c, d, e, f, g));
	ev("macro").v("n", 8).v("r", PICK(a, b, c, d, e, f, g, h));
	ev("macro").v("n", 9).v("r", PICK(a, b, c, d, e, f, g, h, i));
	ev("macro").v("n", 10).v("r", PICK(a, b, c, d, e, f, g, h, i, j));
}

// objects owned through their base
std::vector<int> gone;

struct notes {
	int id;
	std::string text{"something in memory of its own, which has to be released"};

	explicit notes(int id) :
		id(id)
	{}

	virtual ~notes()
	{
		gone.push_back(this->id);
	}
};

struct plain : utki::destructable {
	notes n;

	explicit plain(int id) :
		n(id)
	{}
};

struct second : notes, utki::destructable {
	explicit second(int id) :
		notes(id)
	{}
};

struct virtually : virtual utki::destructable {};

struct most : virtually, notes {
	explicit most(int id) :
		notes(id)
	{}
};

std::map<int, std::unique_ptr<utki::destructable>> owned;

void exec(const tokens& t)
{
	if (t[0] == "begin") {
		return;
	}
	if (t[0] == "facts") {
		facts();
		return;
	}
	if (t[0] == "own") {
		int id = int(num(t.at(1)));
		if (owned.count(id)) {
			return;
		}
		gone.clear();
		if (t.at(2) == "plain") {
			plain p(-id);
			owned[id] = std::make_unique<plain>(id);
		} else if (t[2] == "second") {
			owned[id] = std::make_unique<second>(id);
		} else if (t[2] == "virtual") {
			owned[id] = std::make_unique<most>(id);
		} else {
			bad_script(t[2]);
		}
		ev("own").v("id", id);
		return;
	}
	gone.clear();
	if (t[0] == "destroy") {
		int id = int(num(t.at(1)));
		if (!owned.count(id)) {
			return;
		}
		owned.erase(id);
		ev("destroy").v("id", id).v("gone", gone);
	} else if (t[0] == "clear") {
		owned.clear();
		ev("clear").v("gone", gone);
	} else {
		bad_script(t[0]);
	}
}
} // namespace

int main()
{
	return run(
		[] {
			owned.clear();
		},
		exec
	);
}
