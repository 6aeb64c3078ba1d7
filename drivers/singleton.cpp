// C14: utki::singleton, utki::intrusive_singleton
#include <utki/singleton.hpp>

#include "common.hpp"
#include "singleton_shared.hpp"

using namespace vf;

namespace {
using shared_classes::failure;
using shared_classes::thrower;
using shared_classes::inside;
using shared_classes::library;

class plain : public utki::singleton<plain>
{
	std::string text{"a member that must survive"};
	thrower m;

public:
	int serial;

	plain(int serial, const std::string& fails) :
		m(fails == "member"),
		serial(serial)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const
	{
		return this->text == "a member that must survive";
	}
};

class intrusive : public utki::intrusive_singleton<intrusive, intrusive>
{
	friend class utki::intrusive_singleton<intrusive, intrusive>;
	static utki::intrusive_singleton<intrusive, intrusive>::instance_type instance;

	std::vector<int> v{1, 2, 3};
	thrower m;

public:
	int serial;

	intrusive(int serial, const std::string& fails) :
		m(fails == "member"),
		serial(serial)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const
	{
		return this->v.size() == 3;
	}
};

utki::intrusive_singleton<intrusive, intrusive>::instance_type intrusive::instance;

struct some_base {
	std::string s{"other base"};

	explicit some_base(bool t)
	{
		if (t) {
			throw failure();
		}
	}

	virtual ~some_base() = default;
};

// the singleton base is not at the beginning of the object
class multi : public some_base, public utki::singleton<multi>
{
	thrower m;

public:
	int serial;

	multi(int serial, const std::string& fails) :
		some_base(fails == "early"),
		m(fails == "member"),
		serial(serial)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const
	{
		return this->s == "other base";
	}
};

// the instance variable is owned by another class, the object type is a base of the actual class
class service;

class service_owner
{
	friend class utki::intrusive_singleton<service, service_owner>;
	static std::unique_ptr<service> instance;
};

class service : public utki::intrusive_singleton<service, service_owner>
{
	thrower m;

public:
	int serial;

	service(int serial, const std::string& fails) :
		m(fails == "member"),
		serial(serial)
	{}

	virtual bool intact() const = 0;
};

std::unique_ptr<service> service_owner::instance;

class derived : public service
{
	std::string s{"derived"};

public:
	derived(int serial, const std::string& fails) :
		service(serial, fails)
	{
		if (fails == "body") {
			throw failure();
		}
	}

	bool intact() const override
	{
		return this->s == "derived";
	}
};

std::unique_ptr<plain> a;
std::unique_ptr<intrusive> b;
std::unique_ptr<multi> c;
std::unique_ptr<service> d;
std::unique_ptr<library> e;
std::unique_ptr<inside> f;
int born = 0;

template <class T>
std::string look(const char* name, T* p, bool created, T* (*inst)())
{
	int reached = 0;
	bool same = true;
	if (created) {
		// look at the object only if it is the one we know to be alive
		T* i = inst();
		if (i == p) {
			reached = i->serial;
			same = i->intact();
		} else {
			same = false;
		}
	}
	return std::string("{\"cls\":\"") + name + "\",\"created\":" + (created ? "true" : "false") + ",\"reached\":" + std::to_string(reached) +
		",\"same\":" + (same ? "true" : "false") + "}";
}

template <class T>
std::string look(const char* name, T* p)
{
	return look<T>(name, p, T::is_created(), []() {
		return &T::inst();
	});
}

std::string seen()
{
	return "[" + look("plain", a.get()) + "," + look("intrusive", b.get()) + "," + look("multi", c.get()) + "," + look("service", d.get()) + "," +
		look("library", e.get()) + "," + look("inside", f.get()) +
		// and from within the library
		"," + look("library", e.get(), shared_classes::library_created(), shared_classes::library_reached) + "," +
		look("inside", f.get(), shared_classes::inside_created(), shared_classes::inside_reached) + "]";
}

// traits: copying or moving a singleton would make a second object
template <class T>
void copies(const char* name)
{
	ev("copies").s_("cls", name).v("copy", std::is_copy_constructible_v<T>).v("move", std::is_move_constructible_v<T>);
}

template <class T, class P>
std::string make(P& p, const std::string& fails, T* (*maker)(int, const std::string&) = nullptr)
{
	++born;
	try {
		auto n = maker ? std::unique_ptr<T>(maker(born, fails)) : std::make_unique<T>(born, fails);
		if (p) {
			// two objects exist: keep the second one out of the way
			static std::vector<T*> leaked;
			leaked.push_back(n.release());
		} else {
			p = std::move(n);
		}
		return "ok";
	} catch (failure&) {
		return "failure";
	} catch (std::logic_error&) {
		return "logic_error";
	} catch (...) {
		return "other";
	}
}

void exec(const tokens& t)
{
	const auto& op = t[0];
	if (op == "begin") {
		copies<plain>("plain");
		copies<intrusive>("intrusive");
		copies<multi>("multi");
		copies<derived>("service");
		copies<library>("library");
		copies<inside>("inside");
		return;
	}
	const auto& cls = t[1];
	if (op == "construct") {
		const auto& how = t[2];
		bool there = t.size() > 3 && t[3] == "there"; // in the library
		auto r = cls == "plain"		 ? make<plain>(a, how) :
			cls == "intrusive"		 ? make<intrusive>(b, how) :
			cls == "multi"			 ? make<multi>(c, how) :
			cls == "library"		 ? make<library>(e, how, there ? shared_classes::make_library : nullptr) :
			cls == "inside"			 ? make<inside>(f, how, there ? shared_classes::make_inside : nullptr) :
									   make<derived>(d, how);
		ev("construct").s_("cls", cls).s_("fails", how).s_("r", r).raw("seen", seen());
	} else if (op == "destroy") {
		bool there = t.size() > 2 && t[2] == "there";
		if (cls == "plain" && a) {
			a.reset();
		} else if (cls == "intrusive" && b) {
			b.reset();
		} else if (cls == "multi" && c) {
			c.reset();
		} else if (cls == "service" && d) {
			d.reset();
		} else if (cls == "library" && e) {
			there ? shared_classes::drop(e.release()) : e.reset();
		} else if (cls == "inside" && f) {
			there ? shared_classes::drop(f.release()) : f.reset();
		} else {
			return;
		}
		ev("destroy").s_("cls", cls).raw("seen", seen());
	} else {
		bad_script(op);
	}
}
} // namespace

int main()
{
	return run(
		[]() {
			a.reset();
			b.reset();
			c.reset();
			d.reset();
			e.reset();
			f.reset();
			born = 0;
		},
		exec
	);
}
