// classes used both by the driver and by a shared library
#pragma once

#include <utki/singleton.hpp>

#include <string>
#include <vector>

namespace shared_classes {
struct failure {};

struct thrower {
	explicit thrower(bool t)
	{
		if (t) {
			throw failure();
		}
	}
};

class library : public utki::singleton<library>
{
	std::string text{"a member of an object used on both sides"};
	thrower m;

public:
	int serial;

	library(int serial, const std::string& fails) :
		m(fails == "member"),
		serial(serial)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const
	{
		return this->text == "a member of an object used on both sides";
	}
};

// the instance variable is in the library
class inside : public utki::intrusive_singleton<inside, inside>
{
	friend class utki::intrusive_singleton<inside, inside>;
	static utki::intrusive_singleton<inside, inside>::instance_type instance;

	std::vector<int> v{1, 2, 3};
	thrower m;

public:
	int serial;

	inside(int serial, const std::string& fails) :
		m(fails == "member"),
		serial(serial)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const
	{
		return this->v.size() == 3;
	}
};

// implemented in the library
library* make_library(int serial, const std::string& fails);
void drop(library* p);
bool library_created();
library* library_reached();
inside* make_inside(int serial, const std::string& fails);
void drop(inside* p);
bool inside_created();
inside* inside_reached();
} // namespace shared_classes
