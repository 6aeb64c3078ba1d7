// C14: the shared library
#include "singleton_shared.hpp"

namespace shared_classes {
utki::intrusive_singleton<inside, inside>::instance_type inside::instance;

library* make_library(int serial, const std::string& fails)
{
	return new library(serial, fails);
}

void drop(library* p)
{
	delete p;
}

bool library_created()
{
	return library::is_created();
}

library* library_reached()
{
	return &library::inst();
}

inside* make_inside(int serial, const std::string& fails)
{
	return new inside(serial, fails);
}

void drop(inside* p)
{
	delete p;
}

bool inside_created()
{
	return inside::is_created();
}

inside* inside_reached()
{
	return &inside::inst();
}
} // namespace shared_classes
