// C03: base64
#include <utki/base64.hpp>

#include "common.hpp"

using namespace vf;

namespace {
void exec(const tokens& t)
{
	std::string text;
	if (t[0] == "rep") {
		// a unit of whole quads, repeated, and a tail
		auto unit = unhex_str(t[1]);
		size_t n = num(t[2]);
		auto tail = unhex_str(t[3]);
		std::string s;
		s.reserve(unit.size() * n + tail.size());
		for (size_t i = 0; i != n; ++i) {
			s += unit;
		}
		exact_buffer b(s + tail);
		std::vector<uint8_t> v;
		auto r = outcome([&]() {
			v = utki::base64_decode(b.sv());
		});
		size_t bl = unit.size() / 4 * 3;
		size_t blocks = 0;
		while (bl && blocks != n && v.size() >= (blocks + 1) * bl && std::equal(v.begin(), v.begin() + bl, v.begin() + blocks * bl)) {
			++blocks;
		}
		std::vector<uint8_t> first(v.begin(), v.begin() + std::min(v.size(), bl));
		std::vector<uint8_t> rest(v.begin() + std::min(v.size(), blocks * bl), v.begin() + std::min(v.size(), blocks * bl + 100));
		ev("decrep").v("unit", unit).v("n", n).v("tail", tail).s_("r", r).v("size", v.size()).v("blocks", blocks).v("first", first).v("rest", rest);
		return;
	}
	if (t[0] == "txt") {
		text = t.size() > 1 ? t[1] : "";
	} else if (t[0] == "hex") {
		text = unhex_str(t[1]);
	} else {
		bad_script(t[0]);
	}
	exact_buffer b(text);
	std::vector<uint8_t> v;
	auto r = outcome([&]() {
		v = utki::base64_decode(b.sv());
	});
	ev("dec64").v("t", text).s_("r", r).v("v", v);
}
} // namespace

int main()
{
	return run([]() {}, exec);
}
