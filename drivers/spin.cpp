// C15: utki::spin_lock
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

#include <utki/spin_lock.hpp>

#include "common.hpp"

using namespace vf;

namespace {
using clk = std::chrono::steady_clock;

// the log: an entry is made by a thread after its lock() returned and before it calls unlock()
std::mutex mx;
std::set<int> inside, waiting;

struct arena {
	// neighbours of the lock in memory must not be touched
	uint8_t before[8] = {1, 2, 3, 4, 5, 6, 7, 8};
	utki::spin_lock lock;
	uint8_t after[8] = {1, 2, 3, 4, 5, 6, 7, 8};
};

std::unique_ptr<arena> ar;
int hold_ms = 1;
int stress_ms = 2000; // a stress run ends early if the machine is busy

struct worker {
	int id;
	std::mutex m;
	std::condition_variable cv;
	std::string cmd;
	std::thread th;

	explicit worker(int id) :
		id(id),
		th([this]() {
			this->loop();
		})
	{}

	void loop()
	{
		for (;;) {
			std::string c;
			{
				std::unique_lock<std::mutex> l(this->m);
				this->cv.wait(l, [this]() {
					return !this->cmd.empty();
				});
				std::swap(c, this->cmd);
			}
			if (c == "quit") {
				return;
			}
			if (c == "lock") {
				ar->lock.lock();
				std::lock_guard<std::mutex> l(mx);
				waiting.erase(this->id);
				inside.insert(this->id);
				ev("acquired").v("t", this->id);
			} else {
				{
					std::lock_guard<std::mutex> l(mx);
					inside.erase(this->id);
					ev("release").v("t", this->id);
				}
				ar->lock.unlock();
			}
		}
	}

	void tell(const char* c)
	{
		std::lock_guard<std::mutex> l(this->m);
		this->cmd = c;
		this->cv.notify_one();
	}
};

std::vector<std::unique_ptr<worker>> ws;

void settle()
{
	auto end = clk::now() + std::chrono::seconds(20);
	for (;;) {
		{
			std::lock_guard<std::mutex> l(mx);
			if (!inside.empty() || waiting.empty()) {
				break;
			}
		}
		if (clk::now() > end) {
			break;
		}
		std::this_thread::sleep_for(std::chrono::microseconds(200));
	}
	std::this_thread::sleep_for(std::chrono::milliseconds(hold_ms));
	std::lock_guard<std::mutex> l(mx);
	ev("settled").v("inside", std::vector<int>(inside.begin(), inside.end())).v("waiting", std::vector<int>(waiting.begin(), waiting.end()));
	if (inside.empty() && !waiting.empty()) {
		std::fflush(stdout);
		std::_Exit(1); // nobody gets the lock, nothing can be continued
	}
}

void release()
{
	int t = 0;
	{
		std::lock_guard<std::mutex> l(mx);
		if (inside.empty()) {
			return;
		}
		t = *inside.begin();
	}
	ws.at(size_t(t - 1))->tell("unlock");
	// wait until the release is noted
	for (;;) {
		{
			std::lock_guard<std::mutex> l(mx);
			if (!inside.count(t)) {
				break;
			}
		}
		std::this_thread::sleep_for(std::chrono::microseconds(100));
	}
}

void stress(int threads, int iters, int work, bool log)
{
	alarm(600);
	struct {
		utki::spin_lock lock;
		uint64_t pad[8] = {};
		uint64_t c1 = 0;
		uint64_t pad2[32] = {};
		uint64_t c2 = 0;
		std::vector<int> log;
	} s;

	std::atomic<int> in{0};
	std::atomic<int> overlaps{0};
	std::atomic<int> ready{0};
	std::vector<int> done(size_t(threads), 0); // each thread writes its own element, once
	auto deadline = clk::now() + std::chrono::milliseconds(stress_ms);
	std::vector<std::thread> ts;
	for (int t = 1; t <= threads; ++t) {
		ts.emplace_back([&, t]() {
			++ready;
			while (ready.load() < threads) {
				std::this_thread::yield();
			}
			volatile uint64_t sink = 0;
			int i = 0;
			for (; i < iters && ((i & 15) || clk::now() < deadline); ++i) {
				{
					std::lock_guard<utki::spin_lock> g(s.lock);
					if (in.fetch_add(1, std::memory_order_relaxed) != 0) {
						overlaps.fetch_add(1, std::memory_order_relaxed);
					}
					if (log) {
						s.log.push_back(t);
					}
					auto a = s.c1;
					for (int k = 0; k < work; ++k) {
						sink = sink + a;
					}
					s.c1 = a + 1;
					s.c2 = s.c2 + 1;
					if (log) {
						s.log.push_back(-t);
					}
					in.fetch_sub(1, std::memory_order_relaxed);
				}
				for (int k = 0; k < (i * t) % (work + 1); ++k) {
					sink = sink + 1;
				}
			}
			done[size_t(t - 1)] = i;
		});
	}
	for (auto& t : ts) {
		t.join();
	}
	if (log) {
		ev("entries").v("done", done).v("log", s.log);
	}
	ev("stress").v("done", done).v("overlaps", overlaps.load()).v("counters", std::vector<uint64_t>{s.c1, s.c2});
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "begin") {
		return;
	}
	if (op == "stress_ms") {
		stress_ms = int(num(t[1]));
		return;
	}
	if (op == "stress") {
		stress(int(num(t[1])), int(num(t[2])), int(num(t[3])), num(t[4]) != 0);
		return;
	}
	if (!ar) {
		ar = std::make_unique<arena>();
	}
	if (op == "request") {
		auto n = size_t(num(t[1]));
		while (ws.size() < n) {
			ws.push_back(std::make_unique<worker>(int(ws.size()) + 1));
		}
		{
			std::lock_guard<std::mutex> l(mx);
			if (waiting.count(int(n)) || inside.count(int(n))) {
				return;
			}
			waiting.insert(int(n));
			ev("request").v("t", n);
		}
		ws[n - 1]->tell("lock");
		settle();
	} else if (op == "release") {
		release();
		settle();
	} else if (op == "hold") {
		alarm(200);
		auto h = hold_ms;
		hold_ms = int(num(t[1]));
		settle();
		hold_ms = h;
	} else {
		bad_script(op);
	}
}

void reset()
{
	for (;;) {
		{
			std::lock_guard<std::mutex> l(mx);
			if (inside.empty() && waiting.empty()) {
				break;
			}
		}
		release();
		settle();
	}
	for (auto& w : ws) {
		w->tell("quit");
		w->th.join();
	}
	ws.clear();
	if (ar) {
		arena fresh;
		if (std::memcmp(ar->before, fresh.before, 8) || std::memcmp(ar->after, fresh.after, 8)) {
			ev("neighbours_of_the_lock_changed");
		}
	}
	ar.reset();
}
} // namespace

int main()
{
	return run(reset, exec);
}
