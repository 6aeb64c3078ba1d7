// C33: utki::get_ticks_ms().  The process sees a clock that the script sets.
#include <utki/time.hpp>

#include <sys/time.h>
#include <time.h>

#include "common.hpp"

using namespace vf;

namespace {
long long fake_s = 0;
long fake_n = 0;
uint32_t previous = 0;

void put(const char* what, uint32_t v)
{
	ev(what).v("r", std::vector<unsigned>{v & 0xffffu, v >> 16});
}

void exec(const tokens& t)
{
	if (t[0] == "clock") {
		fake_s = num(t.at(1));
		fake_n = long(num(t.at(2)));
		std::vector<int> d;
		for (char c : t[1]) {
			d.push_back(c - '0');
		}
		ev("clock").v("d", d).v("n", fake_n);
	} else if (t[0] == "ticks") {
		previous = utki::get_ticks_ms();
		put("ticks", previous);
	} else if (t[0] == "elapsed") {
		auto v = utki::get_ticks_ms();
		put("elapsed", v - previous);
		previous = v;
	} else {
		bad_script(t[0]);
	}
}
} // namespace

// the clocks of this process; clocks other than the system's one run with an offset
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	ts->tv_sec = time_t(fake_s + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 0 : 12345));
	ts->tv_nsec = fake_n;
	return 0;
}

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	tv->tv_sec = time_t(fake_s);
	tv->tv_usec = fake_n / 1000;
	return 0;
}

extern "C" int timespec_get(struct timespec* ts, int base) noexcept
{
	clock_gettime(CLOCK_REALTIME, ts);
	return base;
}

int main()
{
	return run(
		[]() {
			fake_s = 0;
			fake_n = 0;
			previous = 0;
		},
		exec
	);
}
