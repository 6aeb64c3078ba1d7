// C05: utki::deserializer
#include <utki/deserializer.hpp>

#include "common.hpp"

using namespace vf;

namespace {
thread_local std::unique_ptr<exact_buffer> buf;
thread_local std::unique_ptr<utki::deserializer> d;

void done(const std::string& op, unsigned long long n, const std::string& r, const std::vector<unsigned>& v, long long off)
{
	ev(op)
		.v("n", sat(n))
		.s_("r", r)
		.v("v", v)
		.v("off", off)
		.v("size", sat(d->size()))
		.v("empty", d->empty());
}

template <class F>
void read_int(const std::string& op, size_t n, F f)
{
	std::vector<unsigned> v;
	auto r = outcome([&]() {
		auto x = f();
		uint64_t bits = 0;
		static_assert(sizeof(x) <= 8);
		std::memcpy(&bits, &x, sizeof(x));
		for (size_t i = 0; i < sizeof(x); ++i) {
			v.push_back(unsigned((bits >> (8 * i)) & 0xff));
		}
	});
	done(op, n, r, v, -1);
}

template <class F>
void read_view(const std::string& op, size_t n, F f)
{
	std::vector<unsigned> v;
	long long off = -1;
	auto r = outcome([&]() {
		auto x = f();
		if (x.size() != 0) {
			off = reinterpret_cast<const uint8_t*>(x.data()) - buf->p;
		}
		for (auto c : x) {
			v.push_back(unsigned(uint8_t(c)));
		}
	});
	done(op, n, r, v, off);
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "bufn" || op == "buf") {
		std::vector<uint8_t> b;
		if (op == "bufn") {
			for (int i = 1; i <= num(t[1]); ++i) {
				b.push_back(uint8_t(i));
			}
		} else {
			b = unhex(t[1]);
		}
		size_t shift = t.size() > 2 ? size_t(num(t[2])) : 0;
		d.reset();
		buf = std::make_unique<exact_buffer>(b, shift);
		d = std::make_unique<utki::deserializer>(utki::span<const uint8_t>(buf->p, buf->len));
		ev("buf").v("b", b).v("size", sat(d->size())).v("empty", d->empty());
		return;
	}
	if (!d) {
		return;
	}
	if (op == "copy") {
		// a copy of the cursor is a value of its own: reading from it leaves the original alone
		auto c = *d;
		try {
			c.skip(c.size());
		} catch (...) {
		}
		done(op, 0, "ok", {}, -1);
	} else if (op == "u8") {
		read_int(op, 1, []() {
			return d->read_uint8();
		});
	} else if (op == "u16le") {
		read_int(op, 2, []() {
			return d->read_uint16_le();
		});
	} else if (op == "u32le") {
		read_int(op, 4, []() {
			return d->read_uint32_le();
		});
	} else if (op == "u64le") {
		read_int(op, 8, []() {
			return d->read_uint64_le();
		});
	} else if (op == "f32le") {
		read_int(op, 4, []() {
			return d->read_float_le();
		});
	} else if (op == "u16be") {
		read_int(op, 2, []() {
			return d->read_uint16_be();
		});
	} else if (op == "u32be") {
		read_int(op, 4, []() {
			return d->read_uint32_be();
		});
	} else if (op == "u64be") {
		read_int(op, 8, []() {
			return d->read_uint64_be();
		});
	} else if (op == "f32be") {
		read_int(op, 4, []() {
			return d->read_float_be();
		});
	} else if (op == "str") {
		auto n = unum(t[1]);
		read_view(op, n, [n]() {
			return d->read_string(n);
		});
	} else if (op == "span") {
		auto n = unum(t[1]);
		read_view(op, n, [n]() {
			return d->read_span(n);
		});
	} else if (op == "skip") {
		auto n = unum(t[1]);
		auto r = outcome([n]() {
			d->skip(n);
		});
		done(op, n, r, {}, -1);
	} else {
		bad_script(op);
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			d.reset();
			buf.reset();
		},
		exec
	);
}
