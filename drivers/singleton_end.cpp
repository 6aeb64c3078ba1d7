// C14: the end of a program in which a singleton object still exists.  usage: singleton_end CLASS MODE
#include <utki/singleton.hpp>

#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

namespace {
void say(const char* s)
{
	[[maybe_unused]] auto n = ::write(1, s, std::strlen(s));
}

class plain : public utki::singleton<plain>
{
	std::vector<int> v{1, 2, 3};

public:
	~plain() override
	{
		say(this->v.size() == 3 ? "destroyed\n" : "broken\n");
	}
};

class intrusive : public utki::intrusive_singleton<intrusive, intrusive>
{
	friend class utki::intrusive_singleton<intrusive, intrusive>;
	static utki::intrusive_singleton<intrusive, intrusive>::instance_type instance;
	std::vector<int> v{1, 2, 3};

public:
	~intrusive() override
	{
		say(this->v.size() == 3 ? "destroyed\n" : "broken\n");
	}
};

// defined before any object, as an object needs it
utki::intrusive_singleton<intrusive, intrusive>::instance_type intrusive::instance;

#ifdef VF_GLOBAL
plain global_plain;
intrusive global_intrusive;
#endif

template <class T>
void finish(const std::string& mode)
{
	if (mode == "global") {
	} else if (mode == "heap") {
		new T(); // nobody deletes it
	} else if (mode == "static") {
		static T t;
	} else if (mode == "return") {
		T t;
		say(T::is_created() && &T::inst() == &t ? "created\n" : "lost\n");
		return;
	} else if (mode == "exit") {
		T t;
		say(T::is_created() && &T::inst() == &t ? "created\n" : "lost\n");
		std::exit(0);
	} else if (mode == "quit") {
		T t;
		say(T::is_created() && &T::inst() == &t ? "created\n" : "lost\n");
		std::_Exit(0);
	}
	say(T::is_created() && T::inst().is_created() ? "created\n" : "lost\n");
}
} // namespace

int main(int argc, char** argv)
{
	std::string cls = argv[1];
	if (cls == "plain") {
		finish<plain>(argv[2]);
	} else {
		finish<intrusive>(argv[2]);
	}
	return 0;
}
