// C13: utki::signal
#include <utki/signal.hpp>

#include <map>
#include <set>

#include "common.hpp"

using namespace vf;

namespace {
constexpr unsigned max_depth = 2;

using texts = std::vector<std::string>;

struct base {
	std::multiset<int> running;
	std::set<int> used;
	unsigned depth = 0;
	virtual ~base() = default;
	virtual void connect(int id, const std::string& beh) = 0;
	virtual void disconnect(int id) = 0;
	virtual void emit(int n) = 0;
	virtual bool is_connected(int id) const = 0;
	virtual size_t size() const = 0;
	virtual bool empty() const = 0;

	ev& seen(ev& e) const
	{
		return e.v("size", this->size()).v("empty", this->empty());
	}

	struct failure {};

	// times: how often the callback has been called, according to itself
	void called(int id, const std::string& beh, const texts& args, int n, int times)
	{
		{
			ev e("call");
			seen(e.v("id", id).v("args", args).v("times", times));
		}
		running.insert(id);
		if (beh[0] == 'd') {
			for (auto v : {int(num(beh.substr(1))), beh.size() > 2 ? -1 : 0}) {
				if (v > 0) {
					do_disconnect(v);
				}
			}
		} else if (beh == "conn") {
			// the lowest identifier not used yet
			int k = 1;
			while (used.count(k)) {
				++k;
			}
			if (k <= limit) {
				do_connect(k, "plain");
			}
		} else if (beh == "emit") {
			do_emit(n + 1);
		} else if (beh == "many") {
			for (int v = 1; v <= 40; v += 2) {
				do_disconnect(v);
			}
		}
		running.erase(running.find(id));
		bool threw = beh == "throw";
		{
			ev e("return");
			seen(e.v("threw", threw));
		}
		if (threw) {
			throw failure();
		}
	}

	int limit = 3;

	void do_connect(int id, const std::string& beh)
	{
		if (is_connected(id)) {
			return;
		}
		used.insert(id);
		connect(id, beh);
		ev e("connect");
		seen(e.v("id", id));
	}

	void do_disconnect(int id)
	{
		if (!is_connected(id) || running.count(id)) {
			return;
		}
		disconnect(id);
		ev e("disconnect");
		seen(e.v("id", id));
	}

	virtual texts texts_for(int n) const = 0;

	void do_emit(int n)
	{
		if (depth >= max_depth) {
			return;
		}
		++depth;
		{
			ev e("emit");
			seen(e.v("args", texts_for(n)));
		}
		bool threw = false;
		auto saved = running;
		try {
			emit(n);
		} catch (failure&) {
			threw = true;
		}
		running = saved;
		--depth;
		ev e("emitted");
		seen(e.v("threw", threw));
	}
};

std::string long_text(int n)
{
	return std::string(size_t(30 + n), char('a' + n % 26)) + std::to_string(n);
}

std::vector<int> long_list(int n)
{
	return std::vector<int>(size_t(n % 7 + 1), n);
}

std::string show(const std::string& s)
{
	return s;
}

std::string show(int v)
{
	return std::to_string(v);
}

std::string show(const std::vector<int>& v)
{
	std::string s;
	for (auto x : v) {
		s += std::to_string(x) + ",";
	}
	return s;
}

std::string show(const std::shared_ptr<int>& p)
{
	return p ? std::to_string(*p) : "null";
}

template <class C, class... A>
struct impl : public base {
	utki::signal<A...> s;
	std::map<int, typename utki::signal<A...>::connection> cs;

	void disconnect(int id) override
	{
		auto i = cs.find(id);
		s.disconnect(i->second);
		cs.erase(i);
	}

	bool is_connected(int id) const override
	{
		return cs.count(id) != 0;
	}

	size_t size() const override
	{
		return s.size();
	}

	bool empty() const override
	{
		return s.empty();
	}

	~impl() override
	{
		while (!cs.empty()) {
			disconnect(cs.begin()->first);
		}
	}
};

// by value; callbacks may take what they get
struct by_value : public impl<by_value, std::string, std::vector<int>, int> {
	int current = 0;

	texts texts_for(int n) const override
	{
		return {show(long_text(n)), show(long_list(n)), show(n)};
	}

	void emit(int n) override
	{
		auto saved = current;
		current = n;
		try {
			if (n % 2) {
				s.emit(long_text(n), long_list(n), n);
			} else {
				auto t = long_text(n);
				auto l = long_list(n);
				s.emit(t, l, n);
				if (t != long_text(n) || l != long_list(n)) {
					ev("emitter_arguments_changed");
				}
			}
		} catch (...) {
			current = saved;
			throw;
		}
		current = saved;
	}

	void connect(int id, const std::string& beh) override
	{
		if (id % 3 == 0) {
			// takes constant references
			cs[id] = s.connect([this, id, beh, times = 0](const std::string& a, const std::vector<int>& b, int c) mutable {
				called(id, beh, {show(a), show(b), show(c)}, current, ++times);
			});
		} else if (id % 3 == 1) {
			// takes values and destroys them
			cs[id] = s.connect([this, id, beh, times = 0](std::string a, std::vector<int> b, int c) mutable {
				auto sa = std::move(a);
				auto sb = std::move(b);
				a = "broken";
				b.clear();
				called(id, beh, {show(sa), show(sb), show(c)}, current, ++times);
			});
		} else {
			// takes rvalues, a callable object
			struct taker {
				by_value* owner;
				int id;
				std::string beh;
				int times = 0;

				void operator()(std::string&& a, std::vector<int>&& b, int&& c)
				{
					std::string sa = std::move(a);
					std::vector<int> sb = std::move(b);
					int sc = c;
					a = "taken";
					b = {1};
					c = -1;
					owner->called(id, beh, {show(sa), show(sb), show(sc)}, owner->current, ++this->times);
				}
			};

			taker tk{this, id, beh};
			cs[id] = s.connect(tk);
		}
	}
};

// by constant reference
struct by_ref : public impl<by_ref, const std::string&, std::shared_ptr<int>, const std::vector<int>&> {
	int current = 0;

	texts texts_for(int n) const override
	{
		return {show(long_text(n)), show(n), show(long_list(n))};
	}

	void emit(int n) override
	{
		auto saved = current;
		current = n;
		try {
			s.emit(long_text(n), std::make_shared<int>(n), long_list(n));
		} catch (...) {
			current = saved;
			throw;
		}
		current = saved;
	}

	void connect(int id, const std::string& beh) override
	{
		if (id % 2) {
			cs[id] = s.connect([this, id, beh, times = 0](const std::string& a, std::shared_ptr<int> b, const std::vector<int>& c) mutable {
				auto q = std::move(b);
				b.reset();
				called(id, beh, {show(a), show(q), show(c)}, current, ++times);
			});
		} else {
			cs[id] = s.connect([this, id, beh, times = 0](std::string a, const std::shared_ptr<int>& b, std::vector<int> c) mutable {
				called(id, beh, {show(a), show(b), show(c)}, current, ++times);
				a.clear();
				c.clear();
			});
		}
	}
};

// no arguments
struct bare : public impl<bare> {
	texts texts_for(int) const override
	{
		return {};
	}

	void emit(int) override
	{
		s.emit();
	}

	void connect(int id, const std::string& beh) override
	{
		cs[id] = s.connect([this, id, beh, times = 0]() mutable {
			called(id, beh, {}, 0, ++times);
		});
	}
};

thread_local std::unique_ptr<base> sig;

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "sig") {
		sig.reset();
		if (t[1] == "v") {
			sig = std::make_unique<by_value>();
		} else if (t[1] == "r") {
			sig = std::make_unique<by_ref>();
		} else {
			sig = std::make_unique<bare>();
		}
		sig->limit = t.size() > 2 ? int(num(t[2])) : 3;
		return;
	}
	if (op == "connect") {
		sig->do_connect(int(num(t[1])), t[2]);
	} else if (op == "disconnect") {
		sig->do_disconnect(int(num(t[1])));
	} else if (op == "emit") {
		sig->do_emit(int(num(t[1])));
	} else {
		bad_script(op);
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			sig.reset();
		},
		exec
	);
}
