// C16: utki::scope_exit
#include <utki/utility.hpp>

#include <map>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::vector<tokens> program;
thread_local size_t pc = 0;

thread_local std::map<int, utki::scope_exit*> guards;
thread_local std::map<int, std::function<void()>> held;
thread_local int to_leave = 0;
bool is_empty(const std::string& beh)
{
	return beh == "empty";
}

struct unwind {};

struct action_failure {};

void release(int id, bool old = false)
{
	auto i = guards.find(id);
	if (i == guards.end()) {
		return;
	}
	std::function<void()> f;
	if (old) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
		f = i->second->reset();
#pragma GCC diagnostic pop
	} else {
		f = i->second->release();
	}
	bool got = bool(f);
	if (got) {
		held[id] = std::move(f);
	}
	ev("release").v("id", id).v("got", got);
}

std::function<void()> make(int id, const std::string& beh)
{
	if (is_empty(beh)) {
		return nullptr;
	}
	// something that does not fit into the function object itself
	std::vector<int> payload(20, id);
	return [id, beh, payload]() {
		for (auto p : payload) {
			if (p != id) {
				ev("captured_data_lost");
			}
		}
		ev("ran").v("id", id);
		if (beh == "throw") {
			throw action_failure();
		}
		if (beh == "rel") {
			release(id - 1);
		}
		if (beh == "catch") {
			// an exception inside the action, while perhaps another one is in flight
			try {
				throw action_failure();
			} catch (...) {
			}
		}
	};
}

void level();

struct unregister {
	int id;

	~unregister()
	{
		guards.erase(this->id);
	}
};

// one scope with one guard; the rest of the program up to its exit runs inside
void scope(int id, const std::string& beh)
{
	ev("guard").v("id", id).v("empty", is_empty(beh));
	held.erase(id);
	utki::scope_exit g(make(id, beh));
	guards[id] = &g;
	unregister u{id}; // goes before the guard does
	level();
}

void leave()
{
	// called where one scope less exists
	--to_leave;
}

void level()
{
	while (pc < program.size()) {
		auto t = program[pc++];
		const auto& op = t[0];
		if (op == "guard") {
			int id = int(num(t[1]));
			if (guards.count(id)) {
				continue;
			}
			bool thrown = false;
			try {
				scope(id, t[2]);
			} catch (unwind&) {
				thrown = true;
				leave();
				if (to_leave > 0) {
					throw;
				}
			}
			if (!thrown) {
				leave();
			}
			if (to_leave > 0) {
				return;
			}
			ev("left").v("depth", guards.size());
		} else if (op == "release" || op == "reset") {
			release(int(num(t[1])), op == "reset");
		} else if (op == "call") {
			int id = int(num(t[1]));
			auto i = held.find(id);
			if (i == held.end()) {
				continue;
			}
			ev("calling").v("id", id);
			auto f = i->second;
			try {
				f();
			} catch (action_failure&) {
			}
			ev("called");
		} else if (op == "leave" || op == "throw") {
			auto n = size_t(num(t[1]));
			if (n > guards.size()) {
				n = guards.size();
			}
			if (n == 0) {
				continue;
			}
			to_leave = int(n);
			ev("exit").v("n", n);
			if (op == "throw") {
				throw unwind();
			}
			return;
		} else if (op == "begin") {
			// a second guard with the same action would run it again, one assigned to would forget its action
			using g = utki::scope_exit;
			ev("guards").v("again", std::is_copy_constructible_v<g> || std::is_move_constructible_v<g>).v(
				"forget",
				std::is_copy_assignable_v<g> || std::is_move_assignable_v<g>
			);
		} else {
			bad_script(op);
		}
	}
	// end of the program: leave everything
	if (!guards.empty()) {
		to_leave = int(guards.size());
		ev("exit").v("n", guards.size());
	}
}

void flush()
{
	pc = 0;
	to_leave = 0;
	level();
	program.clear();
	guards.clear();
	held.clear();
}
} // namespace

int main()
{
	return run(flush, [](const tokens& t) {
		program.push_back(t);
	});
}
