// C35: constant objects read by several threads, and references to one object held by several threads
#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/linq.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/util.hpp>
#include <utki/version.hpp>
#include <utki/views.hpp>

#include <list>

#include "common.hpp"

using namespace vf;

namespace {
enum class item {
	a,
	b,
	c,
	d,
	enum_size
};

using node = utki::tree<std::string>;

void start_together(unsigned n, const std::function<void(unsigned)>& f)
{
	std::atomic<unsigned> ready{0};
	std::vector<std::thread> threads;
	for (unsigned i = 0; i < n; ++i) {
		threads.emplace_back([&, i]() {
			++ready;
			while (ready != n) {
				std::this_thread::yield();
			}
			f(i);
		});
	}
	for (auto& t : threads) {
		t.join();
	}
}

std::string text_of(int n, int from)
{
	std::string r;
	for (int i = 0; i < n; ++i) {
		r += char('a' + (i * 7 + from) % 26);
	}
	return r;
}

using observers = std::vector<std::function<std::string(const node&)>>;

template <class C>
std::string join(const C& c)
{
	std::string r;
	for (const auto& e : c) {
		r += std::to_string(e) + ",";
	}
	return r;
}

node::container_type make_trees(int n, int depth)
{
	node::container_type r;
	for (int i = 0; i < n; ++i) {
		r.emplace_back(text_of(20 + i, depth));
		if (depth > 0) {
			r.back().children = make_trees(n, depth - 1);
		}
	}
	return r;
}

// an exception with n levels
void throw_nested(int n)
{
	if (n == 1) {
		throw std::runtime_error(text_of(30, n));
	}
	try {
		throw_nested(n - 1);
	} catch (...) {
		if (n % 3 == 0) {
			std::throw_with_nested(std::runtime_error(text_of(30, n)));
		}
		utki::throw_with_nested(std::runtime_error(text_of(30, n)));
	}
}

// Returns a function which asks a constant object, made here, for everything it can be asked.
std::function<std::string()> reader(const std::string& kind, int n)
{
	if (kind == "exception") {
		std::exception_ptr p;
		try {
			throw_nested(n);
		} catch (...) {
			p = std::current_exception();
		}
		// the exception stays here until everything has been read
		return [p, n]() {
			std::string r;
			try {
				std::rethrow_exception(p);
			} catch (std::exception& e) {
				const char* w = e.what();
				r = e.what();
				r += utki::to_string(e, "  ");
				r += w;
				if (auto u = dynamic_cast<utki::exception*>(&e)) {
					r += u->to_string("> ");
				}
				r += utki::current_exception_to_string("- ");
			}
			return r;
		};
	}
	if (kind == "tree") {
		auto f = std::make_shared<const node::container_type>(make_trees(n, 3));
		return [f]() {
			std::string r;
			auto t = utki::make_traversal(*f);
			for (auto i = t.begin(); i != t.end(); ++i) {
				r += i->value;
				r += join(i.index());
				r += i.is_last_child() ? "l" : "n";
				r += t.is_valid(i.index()) ? "v" : "-";
				r += t[i.index()].value;
			}
			for (auto i = t.rbegin(); i != t.rend(); ++i) {
				r += i->value;
			}
			node copy(f->front());
			r += copy == f->front() ? "e" : "-";
			return r;
		};
	}
	if (kind == "flags") {
		auto f = std::make_shared<utki::flags<item>>();
		f->set(item(n % 4));
		auto c = std::const_pointer_cast<const utki::flags<item>>(f);
		return [c]() {
			std::string r;
			for (int k = 0; k < 4; ++k) {
				r += c->get(item(k)) ? '1' : '0';
				r += (*c)[item(k)] ? '1' : '0';
				r += (*c | item(k)).is_set() ? '1' : '0';
				r += (~*c).get(item(k)) ? '1' : '0';
			}
			r += c->is_clear() ? 'c' : '-';
			std::stringstream ss;
			ss << *c;
			return r + ss.str();
		};
	}
	if (kind == "array") {
		auto a = std::make_shared<utki::enum_array<std::string, item>>();
		for (int k = 0; k < 4; ++k) {
			(*a)[item(k)] = text_of(n, k);
		}
		auto c = std::const_pointer_cast<const utki::enum_array<std::string, item>>(a);
		return [c]() {
			std::string r;
			for (int k = 0; k < 4; ++k) {
				r += (*c)[item(k)];
			}
			for (auto p : c->zip_with_enum()) {
				r += std::to_string(int(std::get<1>(p))) + std::get<0>(p);
			}
			for (auto e : utki::enum_iterable_v<item>) {
				r += std::to_string(int(e));
			}
			return r;
		};
	}
	if (kind == "text") {
		auto s = std::make_shared<const std::string>(text_of(n, 1) + " 123 " + text_of(n, 2) + "\n-45.5 x" + text_of(n, 3));
		return [s]() {
			std::string r;
			for (const auto& w : utki::split(*s)) {
				r += w + "|";
			}
			for (const auto& w : utki::split(*s, ' ')) {
				r += w + "|";
			}
			for (const auto& w : utki::word_wrap(*s, 20)) {
				r += w + "|";
			}
			r += utki::trim(*s);
			r += utki::join(utki::split(*s), '+');
			r += utki::cat(*s, 12, 'c', 1.5);
			r += utki::make_string("%s %d %s", s->c_str(), 17, s->c_str());
			utki::string_parser p(*s);
			r += p.read_word();
			r += std::to_string(p.read_number<int>());
			r += utki::starts_with(*s, "abc") ? 'y' : 'n';
			return r;
		};
	}
	if (kind == "bytes") {
		auto b = std::make_shared<const std::string>(text_of(n, 5));
		return [b]() {
			auto s = utki::make_span(*b);
			auto u = utki::make_span(reinterpret_cast<const uint8_t*>(b->data()), b->size());
			std::string r;
			auto d = utki::base64_decode(b->substr(0, b->size() / 4 * 4));
			r.append(d.begin(), d.end());
			utki::deserializer ds(u);
			while (ds.size() >= 4) {
				r += std::to_string(ds.read_uint32_le());
			}
			for (auto i = s.rbegin(); i != s.rend(); ++i) {
				r += *i;
			}
			auto u32 = utki::to_utf32(*b);
			for (auto c : u32) {
				r += utki::to_utf8(c).data();
			}
			r += utki::to_utf8(u32);
			return r;
		};
	}
	if (kind == "collection") {
		auto v = std::make_shared<const std::vector<int>>([n]() {
			std::vector<int> r;
			for (int i = 0; i < n; ++i) {
				r.push_back((i * 37 + 11) % 101);
			}
			return r;
		}());
		return [v]() {
			std::string r = join(utki::linq(*v).where([](int x) { return x % 2 == 0; }).select([](int x) { return x + 1; }).get());
			for (const auto& g : utki::linq(*v).group_by([](int x) { return x % 5; }).get()) {
				r += std::to_string(g.first) + ":" + join(g.second);
			}
			for (auto x : utki::views::reverse(*v)) {
				r += std::to_string(x);
			}
			for (auto p : utki::views::zip(*v, *v)) {
				r += std::to_string(std::get<0>(p) + std::get<1>(p));
			}
			auto c = *v;
			utki::sort(c.begin(), c.end());
			return r + join(c);
		};
	}
	if (kind == "version") {
		auto d = std::make_shared<const utki::version_duplet>(utki::version_duplet{uint16_t(n), uint16_t(n + 1)});
		return [d]() {
			std::stringstream ss;
			ss << *d << ' ' << d->to_uint32_t() << (*d >= *d) << (*d < *d);
			return ss.str();
		};
	}
	bad_script(kind);
}

struct thing : public utki::shared {
	static std::atomic<int> alive, used_dead, destroyed;
	std::atomic<bool> ok{true};
	int value;

	explicit thing(int v) :
		value(v)
	{
		++alive;
	}

	int get() const
	{
		if (!this->ok) {
			++used_dead;
		}
		return this->value;
	}

	virtual ~thing()
	{
		this->ok = false;
		--alive;
		++destroyed;
	}
};

std::atomic<int> thing::alive{0};
std::atomic<int> thing::used_dead{0};
std::atomic<int> thing::destroyed{0};

struct special : public thing {
	using thing::thing;
};

void exec(const tokens& t)
{
	auto num_threads = unsigned(num(t[1]));
	if (t[0] == "read") {
		// read threads kind n repetitions
		auto n = int(num(t[3]));
		auto alone = reader(t[2], n)();
		auto f = reader(t[2], n);
		std::vector<std::vector<std::string>> got(num_threads);
		start_together(num_threads, [&](unsigned i) {
			for (long long k = num(t[4]); k > 0; --k) {
				got[i].push_back(f());
			}
		});
		// what is different, if anything
		std::vector<std::string> all{alone};
		for (const auto& g : got) {
			for (const auto& s : g) {
				if (s != alone) {
					all.push_back(s.substr(0, 300));
				}
			}
		}
		ev("read").s_("kind", t[2]).v("threads", num_threads).v("results", all.size()).v("alone_empty", alone.empty());
		return;
	}
	if (t[0] == "share") {
		// share threads repetitions first: references to one object are copied, assigned, converted and dropped by all threads.
		// The creator drops its own one before (1) or after (0) the others are done.
		thing::alive = thing::used_dead = thing::destroyed = 0;
		auto reps = num(t[2]);
		std::atomic<int> early{0}, wrong{0};
		{
			std::vector<utki::shared_ref<special>> seeds(num_threads, utki::make_shared<special>(42));
			start_together(num_threads, [&](unsigned i) {
				auto mine = std::move(seeds[i]);
				utki::shared_ref<thing> base(mine);
				for (long long k = 0; k < reps; ++k) {
					utki::shared_ref<const thing> c(base);
					auto again = utki::make_shared_from(mine.get());
					std::shared_ptr<special> p = mine;
					std::weak_ptr<special> w = mine;
					utki::shared_ref<special> copy(mine);
					mine = copy;
					base = copy;
					auto l = w.lock();
					if (!l || c.get().get() + again.get().get() + p->get() + base.get().get() != 4 * 42) {
						++wrong;
					}
				}
				if (thing::destroyed) {
					++early;
				}
			});
			// the seeds are empty now
			seeds.clear();
		}
		ev("share")
			.v("threads", num_threads)
			.v("alive", thing::alive.load())
			.v("destroyed", thing::destroyed.load())
			.v("used_dead", thing::used_dead.load())
			.v("early", early.load())
			.v("wrong", wrong.load());
		return;
	}
	bad_script(t[0]);
}
} // namespace

int main()
{
	return run(
		[]() {
		},
		exec
	);
}
