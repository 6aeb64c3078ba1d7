// C29: utki::version_duplet
#include <utki/version.hpp>

#include <algorithm>
#include <sstream>

#include "common.hpp"

using namespace vf;
using utki::version_duplet;

namespace {
using vd = version_duplet;

version_duplet parse(const std::string& a, const std::string& b)
{
	return version_duplet{uint16_t(num(a)), uint16_t(num(b))};
}

std::vector<unsigned> seq(const version_duplet& v)
{
	return {v.major, v.minor};
}

// packing is usable in constant expressions
static_assert(vd{1, 2}.to_uint32_t() == vd{1, 2}.to_uint32_t(), "");

thread_local vd seen{0, 0};

void pair(const vd& a, const vd& b)
{
	ev("pair").v("a", seq(a)).v("b", seq(b)).v("lt", bool(a < b)).v("ge", bool(a >= b)).bytes("pa", a.to_uint32_t()).bytes("pb", b.to_uint32_t()).v(
		"plt",
		a.to_uint32_t() < b.to_uint32_t()
	);
}

void exec(const tokens& t)
{
	if (t[0] == "pair") {
		pair(parse(t.at(1), t.at(2)), parse(t.at(3), t.at(4)));
		return;
	}
	if (t[0] == "text") {
		auto v = parse(t.at(1), t.at(2));
		std::ostringstream o, p;
		o << v;
		p << '<' << v << '>'; // also: the stream is passed on
		ev("text").v("v", seq(v)).v("text", o.str()).v("around", p.str());
		return;
	}
	if (t[0] == "see") {
		auto v = parse(t.at(1), t.at(2));
		seen = std::max(seen, v);
		ev("see").v("v", seq(v)).v("max", seq(seen));
		return;
	}
	if (t[0] == "sort") {
		std::vector<vd> v;
		for (size_t i = 1; i + 1 < t.size(); i += 2) {
			v.push_back(parse(t[i], t[i + 1]));
		}
		std::vector<std::vector<unsigned>> in, out;
		for (auto& x : v) {
			in.push_back(seq(x));
		}
		std::sort(v.begin(), v.end());
		for (auto& x : v) {
			out.push_back(seq(x));
		}
		ev("sort").v("in", in).v("out", out);
		return;
	}
	bad_script(t[0]);
}
} // namespace

int main()
{
	return run(
		[] {
			seen = {0, 0};
		},
		exec
	);
}
