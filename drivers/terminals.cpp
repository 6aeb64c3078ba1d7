// C34: utki::is_terminal_cin(), is_terminal_cout(), is_terminal_cerr()
// Every case runs in a process of its own, whose standard streams the script connects.
#include <utki/utility.hpp>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>

#include "common.hpp"

using namespace vf;

namespace {
std::vector<tokens> todo;

int report = -1;

void say(const std::string& s)
{
	auto l = s + "\n";
	if (write(report, l.data(), l.size()) != ssize_t(l.size())) {
		std::_Exit(98);
	}
}

// standard streams are given by connecting only
int away(int f)
{
	if (f < 0) {
		std::_Exit(98);
	}
	int r = fcntl(f, F_DUPFD, 10);
	close(f);
	return r;
}

int open_thing(const std::string& t, bool in)
{
	int p[2];
	if (t == "terminal") {
		int m = away(posix_openpt(O_RDWR | O_NOCTTY));
		if (grantpt(m) != 0 || unlockpt(m) != 0) {
			std::_Exit(98);
		}
		return away(open(ptsname(m), O_RDWR | O_NOCTTY));
	}
	if (t == "pipe") {
		if (pipe(p) != 0) {
			std::_Exit(98);
		}
		away(in ? p[1] : p[0]); // the other end stays open
		return away(in ? p[0] : p[1]);
	}
	if (t == "file") {
		return away(memfd_create("file", 0));
	}
	if (t == "null") {
		return away(open("/dev/null", O_RDWR));
	}
	if (t == "zero") {
		return away(open("/dev/zero", O_RDWR));
	}
	if (t == "socket") {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) {
			std::_Exit(98);
		}
		away(p[1]);
		return away(p[0]);
	}
	if (t == "directory") {
		return away(open("/", O_RDONLY | O_DIRECTORY));
	}
	return -1;
}

void connect_to(int n, const std::string& t)
{
	if (t == "closed") {
		close(n);
		return;
	}
	int f = open_thing(t, n == 0);
	if (f < 0 || dup2(f, n) != n) {
		std::_Exit(98);
	}
	close(f);
}

void child()
{
	alarm(command_seconds);
	for (int n : {0, 1, 2}) {
		connect_to(n, "null");
	}
	// other descriptors must not matter, nor end up as standard streams
	for (const auto& t : todo) {
		if (t[0] == "connect") {
			connect_to(t[1] == "cin" ? 0 : t[1] == "cout" ? 1 : 2, t[2]);
			say("{\"op\":\"connect\",\"s\":\"" + t[1] + "\",\"t\":\"" + t[2] + "\"}");
			continue;
		}
		auto b = [](bool v) {
			return std::string(v ? "true" : "false");
		};
		auto a = utki::is_terminal_cin();
		auto c = utki::is_terminal_cout();
		auto d = utki::is_terminal_cerr();
		say("{\"op\":\"ask\",\"cin\":" + b(a) + ",\"cout\":" + b(c) + ",\"cerr\":" + b(d) + ",\"oldcin\":" + b(utki::is_cin_terminal()) +
			",\"oldcout\":" + b(utki::is_cout_terminal()) + ",\"oldcerr\":" + b(utki::is_cerr_terminal()) + "}");
	}
	std::_Exit(0);
}

void finish()
{
	if (todo.empty()) {
		return;
	}
	int r = memfd_create("report", 0);
	std::fflush(stdout);
	pid_t pid = fork();
	if (pid < 0 || r < 0) {
		bad_script("fork");
	}
	if (pid == 0) {
		// out of the way of descriptors that connecting opens
		report = fcntl(r, F_DUPFD, 200);
		close(r);
		child();
	}
	int st = 0;
	waitpid(pid, &st, 0);
	std::string s;
	char buf[4096];
	lseek(r, 0, SEEK_SET);
	for (ssize_t n = 0; (n = read(r, buf, sizeof(buf))) > 0;) {
		s.append(buf, size_t(n));
	}
	close(r);
	std::fwrite(s.data(), 1, s.size(), stdout);
	std::fflush(stdout);
	todo.clear();
	if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
		bad_script("connections");
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
		ev("died");
	}
}

void exec(const tokens& t)
{
	if (t[0] == "ask" || (t[0] == "connect" && t.size() == 3)) {
		todo.push_back(t);
		return;
	}
	bad_script(t[0]);
}
} // namespace

int main()
{
	return run(finish, exec);
}
