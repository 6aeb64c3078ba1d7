// C28: utki::assert, utki::assert_always, ASSERT, utki::log, utki::logcat, LOG and their debug forms.
// Programs run in a forked process whose standard output and error are files.
#include <utki/debug.hpp>
#include <utki/log.hpp>

#include <fcntl.h>
#include <termios.h>
#include <tuple>

#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include "common.hpp"

using namespace vf;

namespace {
int marks_fd = -1;

void mark(char t, int i)
{
	struct stat st {};
	fstat(1, &st);
	auto s = std::string("{\"t\":\"") + t + "\",\"i\":" + std::to_string(i) + ",\"n\":" + std::to_string((long long)(st.st_size)) + "},";
	if (write(marks_fd, s.data(), s.size()) != ssize_t(s.size())) {
		std::_Exit(98);
	}
}

std::string contents(int fd)
{
	std::string r;
	char buf[4096];
	lseek(fd, 0, SEEK_SET);
	for (ssize_t n = 0; (n = read(fd, buf, sizeof(buf))) > 0;) {
		r.append(buf, size_t(n));
	}
	return r;
}

struct stmt {
	std::string form; // how it is written
	bool holds;
	bool says;
	std::string text;
	// filled in when it is executed or described
	std::string loc;
};

// the location of statements which take it from where they are written
std::string here(int line)
{
	return std::string(__FILE__) + ":" + std::to_string(line);
}

#if __cplusplus >= 202002L
constexpr bool has_default_location = true;
#else
constexpr bool has_default_location = false;
#endif

struct info {
	const char* k;
	bool always, fun;
};

// what the forms are
info describe(const std::string& f)
{
	if (f == "log" || f == "logcat") {
		return {"log", true, f == "log"};
	}
	if (f == "LOG" || f == "log_debug" || f == "logcat_debug") {
		return {"log", false, f != "logcat_debug"};
	}
	if (f == "run_debug") {
		return {"run", false, true};
	}
	bool always = f.substr(0, 6) == "always";
	bool fun = f.find("fun") != std::string::npos;
	return {"assert", always, fun};
}

// executes statement number i; says where it is in the source code
// (only that when dry is set)
std::string execute(const stmt& s, int i, bool dry)
{
	const auto& f = s.form;
	bool c = s.holds;
	std::function<void(std::ostream&)> print = [&](std::ostream& o) {
		mark('p', i);
		o << s.text;
	};
	std::function<void(std::ostream&)> none;
	const auto& pr = s.says ? print : none;
	std::function<bool()> cond = [&]() {
		mark('c', i);
		return s.holds;
	};
	int x = 0;
	int* ptr = c ? &x : nullptr;
	const char* cptr = c ? "" : nullptr;
	auto sp = c ? std::make_shared<int>(1) : std::shared_ptr<int>();
	auto up = c ? std::make_unique<int>(1) : std::unique_ptr<int>();
	std::function<int(int)> fn;
	if (c) {
		fn = [](int a) {
			return a;
		};
	}
	static const utki::source_location sl(uint32_t(4000000000u), 7, "some/file.cxx");
	std::string where = "some/file.cxx:4000000000";

// a statement on one line, so that its location is known
#define S(name, statement) \
	if (f == name) { \
		auto w = here(__LINE__); \
		if (!dry) { \
			statement; \
		} \
		return w; \
	}
// a statement with an explicit location
#define X(name, statement) \
	if (f == name) { \
		if (!dry) { \
			statement; \
		} \
		return where; \
	}
// a statement with a location without file name
#define N(name, statement) \
	if (f == name) { \
		if (!dry) { \
			statement; \
		} \
		return ":4711:"; \
	}
	static const utki::source_location no_file(4711);
	if (s.says) {
		S("macro_bool", ASSERT(c, pr))
		S("macro_ptr", ASSERT(ptr, pr))
		S("macro_shared", ASSERT(sp, pr))
		S("macro_unique", ASSERT(up, pr))
		S("macro_callable", ASSERT(fn, pr))
		S("macro_fun", ASSERT(cond, pr))
		X("bool", utki::assert(c, pr, sl))
		X("ptr", utki::assert(cptr, pr, sl))
		X("shared", utki::assert(sp, pr, sl))
		X("unique", utki::assert(up, pr, sl))
		X("callable", utki::assert(fn, pr, sl))
		X("fun", utki::assert(cond, pr, sl))
		X("always", utki::assert_always(c, pr, sl))
		N("always_nofile", utki::assert_always(c, pr, no_file))
		S("always_here", utki::assert_always(c, pr, SL))
#if __cplusplus >= 202002L
		S("default_bool", utki::assert(c, pr))
		S("default_ptr", utki::assert(ptr, pr))
		S("default_shared", utki::assert(sp, pr))
		S("default_unique", utki::assert(up, pr))
		S("default_callable", utki::assert(fn, pr))
		S("default_fun", utki::assert(cond, pr))
		S("always_default", utki::assert_always(c, pr))
#endif
		X("log", utki::log(print))
		X("logcat", utki::logcat(s.text))
		X("LOG", LOG(print))
		X("log_debug", utki::log_debug(print))
		X("logcat_debug", utki::logcat_debug(s.text))
		X("run_debug", utki::run_debug([&]() { mark('p', i); }))
	} else {
		S("macro_bool", ASSERT(c))
		S("macro_ptr", ASSERT(ptr))
		S("macro_shared", ASSERT(sp))
		S("macro_unique", ASSERT(up))
		S("macro_callable", ASSERT(fn))
		S("macro_fun", ASSERT(cond))
		X("bool", utki::assert(c, sl))
		X("ptr", utki::assert(cptr, sl))
		X("shared", utki::assert(sp, sl))
		X("unique", utki::assert(up, sl))
		X("callable", utki::assert(fn, sl))
		X("fun", utki::assert(cond, sl))
		X("always", utki::assert_always(c, sl))
		N("always_nofile", utki::assert_always(c, no_file))
		S("always_here", utki::assert_always(c, SL))
#if __cplusplus >= 202002L
		S("default_bool", utki::assert(c))
		S("default_ptr", utki::assert(ptr))
		S("default_shared", utki::assert(sp))
		S("default_unique", utki::assert(up))
		S("default_callable", utki::assert(fn))
		S("default_fun", utki::assert(cond))
		S("always_default", utki::assert_always(c))
#endif
		X("log", utki::log(nullptr))
		X("logcat", utki::logcat(""))
		X("LOG", LOG(nullptr))
		X("log_debug", utki::log_debug(nullptr))
		X("logcat_debug", utki::logcat_debug(""))
		X("run_debug", utki::run_debug(nullptr))
	}
	return "";
}

std::string codes(const std::string& s)
{
	std::string r;
	for (char c : s) {
		r += (r.empty() ? "" : ",") + std::to_string(unsigned(uint8_t(c)));
	}
	return "[" + r + "]";
}

// a terminal which passes everything on as it is: the end for a program, the end for its observer
std::pair<int, int> terminal()
{
	int m = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if (m < 0 || grantpt(m) != 0 || unlockpt(m) != 0) {
		bad_script("pty");
	}
	int s = open(ptsname(m), O_RDWR | O_NOCTTY);
	struct termios a {};
	if (s < 0 || tcgetattr(s, &a) != 0) {
		bad_script("pty slave");
	}
	cfmakeraw(&a);
	tcsetattr(s, TCSANOW, &a);
	return {s, m};
}

std::string screen(int m)
{
	std::string r;
	char buf[4096];
	for (ssize_t n = 0; (n = read(m, buf, sizeof(buf))) > 0;) {
		r.append(buf, size_t(n));
	}
	return r;
}

// program form:holds:text ("~" for no text); tprogram, oprogram, bprogram: standard error, output, both are terminals
void exec(const tokens& t)
{
	if (t[0] != "program" && t[0] != "tprogram" && t[0] != "oprogram" && t[0] != "bprogram") {
		bad_script(t[0]);
	}
	bool tty = t[0] == "tprogram" || t[0] == "bprogram";
	bool out_tty = t[0] == "oprogram" || t[0] == "bprogram";
	std::vector<stmt> p;
	for (size_t i = 1; i < t.size(); ++i) {
		auto a = t[i].find(':');
		auto b = t[i].find(':', a + 1);
		stmt s;
		s.form = t[i].substr(0, a);
		s.holds = t[i].substr(a + 1, b - a - 1) == "1";
		auto text = t[i].substr(b + 1);
		s.says = text != "~";
		s.text = s.says ? unhex_str(text) : "";
		s.loc = execute(s, 0, true);
		if (s.loc.empty()) {
			continue; // not in this language standard
		}
		p.push_back(s);
	}
	int out = -1, out_watch = -1, err = -1, watch = -1, marks = memfd_create("marks", 0);
	if (out_tty) {
		std::tie(out, out_watch) = terminal();
	} else {
		out = out_watch = memfd_create("out", 0);
	}
	if (tty) {
		std::tie(err, watch) = terminal();
	} else {
		err = watch = memfd_create("err", 0);
	}
	if (out < 0 || err < 0 || marks < 0) {
		bad_script("memfd");
	}
	std::fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) {
		bad_script("fork");
	}
	if (pid == 0) {
		dup2(out, 1);
		dup2(err, 2);
		marks_fd = marks;
		int i = 1;
		for (const auto& s : p) {
			execute(s, i, false);
			mark('k', i);
			++i;
		}
		_exit(0); // what has not been flushed is lost
	}
	int st = 0;
	waitpid(pid, &st, 0);
	std::string end = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "finished" : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "aborted" : "other";
	auto errors = tty ? screen(watch) : contents(watch);
	auto written = out_tty ? screen(out_watch) : contents(out_watch);
	auto m = contents(marks);
	if (!m.empty()) {
		m.pop_back();
	}
	std::string prog;
	for (const auto& s : p) {
		auto d = describe(s.form);
		auto b = [](bool v) {
			return v ? "true" : "false";
		};
		prog += (prog.empty() ? "{" : ",{") + ("\"k\":\"" + std::string(d.k)) + "\",\"always\":" + b(d.always) + ",\"holds\":" + b(s.holds) +
			",\"fun\":" + b(d.fun) + ",\"says\":" + b(s.says) + ",\"text\":" + codes(s.text) + ",\"loc\":" + codes(s.loc) + "}";
	}
#ifdef DEBUG
	bool debug = true;
#else
	bool debug = false;
#endif
	ev("program").v("debug", debug).raw("p", "[" + prog + "]").raw("marks", "[" + m + "]").v("out", written).v("err", errors).v("tty", tty).v("otty", out_tty).s_("end", end);
	close(out);
	close(err);
	if (tty) {
		close(watch);
	}
	if (out_tty) {
		close(out_watch);
	}
	close(marks);
}
} // namespace

int main()
{
	return run([]() {}, exec);
}
