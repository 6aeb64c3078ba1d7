// C04: byte order serialization
#include <utki/utility.hpp>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::unique_ptr<exact_buffer> mem;

uint64_t from_bytes(const std::vector<uint8_t>& b)
{
	uint64_t v = 0;
	for (size_t i = 0; i < b.size(); ++i) {
		v |= uint64_t(b[i]) << (8 * i);
	}
	return v;
}

float to_float(uint64_t v)
{
	auto x = uint32_t(v);
	float f;
	std::memcpy(&f, &x, sizeof(f));
	return f;
}

uint64_t from_float(float f)
{
	uint32_t x;
	std::memcpy(&x, &f, sizeof(x));
	return x;
}

size_t width(const std::string& k)
{
	auto w = k.substr(1);
	return w == "8" ? 1 : w == "16" ? 2 : w == "32" ? 4 : 8;
}

uint8_t* ser(const std::string& k, bool be, uint64_t v, uint8_t* p)
{
	if (k == "t8") {
		return be ? utki::serialize_be(uint8_t(v), p) : utki::serialize_le(uint8_t(v), p);
	}
	if (k == "t16") {
		return be ? utki::serialize_be(uint16_t(v), p) : utki::serialize_le(uint16_t(v), p);
	}
	if (k == "t32") {
		return be ? utki::serialize_be(uint32_t(v), p) : utki::serialize_le(uint32_t(v), p);
	}
	if (k == "t64") {
		return be ? utki::serialize_be(uint64_t(v), p) : utki::serialize_le(uint64_t(v), p);
	}
	if (k == "l64") {
		return be ? utki::serialize_be((unsigned long long)(v), p) : utki::serialize_le((unsigned long long)(v), p);
	}
	if (k == "n16") {
		return be ? utki::serialize16be(uint16_t(v), p) : utki::serialize16le(uint16_t(v), p);
	}
	if (k == "n32") {
		return be ? utki::serialize32be(uint32_t(v), p) : utki::serialize32le(uint32_t(v), p);
	}
	if (k == "n64") {
		return be ? utki::serialize64be(v, p) : utki::serialize64le(v, p);
	}
	if (k == "f32") {
		return be ? utki::serialize_float_be(to_float(v), p) : utki::serialize_float_le(to_float(v), p);
	}
	bad_script(k);
}

uint64_t des(const std::string& k, bool be, const uint8_t* p)
{
	if (k == "t8") {
		return be ? utki::deserialize_be<uint8_t>(p) : utki::deserialize_le<uint8_t>(p);
	}
	if (k == "t16") {
		return be ? utki::deserialize_be<uint16_t>(p) : utki::deserialize_le<uint16_t>(p);
	}
	if (k == "t32") {
		return be ? utki::deserialize_be<uint32_t>(p) : utki::deserialize_le<uint32_t>(p);
	}
	if (k == "t64") {
		return be ? utki::deserialize_be<uint64_t>(p) : utki::deserialize_le<uint64_t>(p);
	}
	if (k == "l64") {
		return be ? utki::deserialize_be<unsigned long long>(p) : utki::deserialize_le<unsigned long long>(p);
	}
	if (k == "n16") {
		return be ? utki::deserialize16be(p) : utki::deserialize16le(p);
	}
	if (k == "n32") {
		return be ? utki::deserialize32be(p) : utki::deserialize32le(p);
	}
	if (k == "n64") {
		return be ? utki::deserialize64be(p) : utki::deserialize64le(p);
	}
	if (k == "f32") {
		return from_float(be ? utki::deserialize_float_be(p) : utki::deserialize_float_le(p));
	}
	bad_script(k);
}

std::vector<unsigned> bytes(uint64_t v, size_t n)
{
	std::vector<unsigned> r;
	for (size_t i = 0; i < n; ++i) {
		r.push_back(unsigned((v >> (8 * i)) & 0xff));
	}
	return r;
}

void exec(const tokens& t)
{
	if (t[0] == "mem" || t[0] == "memn") {
		std::vector<uint8_t> b;
		if (t[0] == "memn") {
			for (int i = 1; i <= num(t[1]); ++i) {
				b.push_back(uint8_t(100 + i));
			}
		} else {
			b = unhex(t[1]);
		}
		mem = std::make_unique<exact_buffer>(b, t.size() > 2 ? size_t(num(t[2])) : 0);
		ev("mem").v("b", b);
		return;
	}
	if (!mem || t.size() < 4) {
		bad_script("no mem");
	}
	const auto& k = t[1];
	bool be = t[2] == "be";
	auto pos = size_t(num(t[3]));
	auto w = width(k);
	if (pos + w > mem->len) {
		return; // outside of the precondition
	}
	if (t[0] == "ser") {
		auto v = from_bytes(unhex(t[4]));
		auto* r = ser(k, be, v, mem->p + pos);
		ev("ser")
			.v("w", w)
			.v("be", be)
			.v("pos", pos)
			.v("v", bytes(v, w))
			.v("ret", (long long)(r - mem->p))
			.v("mem", std::vector<uint8_t>(mem->p, mem->p + mem->len));
	} else if (t[0] == "des") {
		auto v = des(k, be, mem->p + pos);
		ev("des")
			.v("w", w)
			.v("be", be)
			.v("pos", pos)
			.v("v", bytes(v, w))
			.v("mem", std::vector<uint8_t>(mem->p, mem->p + mem->len));
	} else {
		bad_script(t[0]);
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			mem.reset();
		},
		exec
	);
}
