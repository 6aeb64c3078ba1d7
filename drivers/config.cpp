// C36: what the configuration macros say about this very build
#include <utki/config.hpp>

#include "common.hpp"

using namespace vf;

int main()
{
	return run([]() {}, [](const tokens& t) {
		if (t[0] != "self") {
			bad_script(t[0]);
		}
		uint16_t one = 1;
		uint8_t first = 0;
		std::memcpy(&first, &one, 1);
#ifdef __clang__
		bool clang = true;
		int major = 0;
#else
		bool clang = false;
		int major = CFG_COMPILER_VERSION_MAJOR;
#endif
		// the year of the language standard: drafts have numbers between those of two standards
		long year = __cplusplus > 201703L ? 2020 : __cplusplus / 100;
		ev("self")
			.v("os", int(CFG_OS))
			.v("osname", int(CFG_OS_NAME))
			.v("compiler", int(CFG_COMPILER))
			.v("clang", clang)
			.v("major", major)
			.v("gnuc", int(__GNUC__))
			.v("endianness", int(CFG_ENDIANNESS))
			.v("firstbyte", int(first))
			.v("bits", int(CFG_CPU_BITS))
			.v("pointer", int(sizeof(void*)))
			.v("cpp", int(CFG_CPP))
			.v("year", year);
	});
}
