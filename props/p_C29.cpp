// C29: the library leaves the process it runs in alone.
#include "hostile.h"
#include "utils/Logger.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <dirent.h>
#include <pthread.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern char** environ;

namespace {
// everything outside the library's objects that it could disturb, as named texts
using State = std::vector<std::pair<std::string, std::string>>;
template <class T> std::string raw(const T& v) { return hex(reinterpret_cast<const uint8_t*>(&v), sizeof v, sizeof v); }
std::string disposition(int sig) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(sig, nullptr, &a)) return "-"; std::ostringstream o; o << (void*)a.sa_handler << "/" << a.sa_flags; for (int s = 1; s < 65; ++s) if (sigismember(&a.sa_mask, s) == 1) o << "," << s; return o.str(); }
template <class S> void stream(State& st, const char* name, S& s) { std::ostringstream o; o << s.flags() << "/" << s.precision() << "/" << s.width() << "/" << int(s.fill()) << "/" << s.exceptions() << "/" << (void*)s.rdbuf() << "/" << (void*)s.tie() << "/" << s.rdstate() << "/" << s.getloc().name(); st.push_back({std::string("the state of std::") + name, o.str()}); }
State snapshot() {
	State st; for (int s = 1; s < 65; ++s) st.push_back({"the disposition of signal " + std::to_string(s), disposition(s)});
	sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, nullptr, &m); std::string t; for (int s = 1; s < 65; ++s) t += sigismember(&m, s) == 1 ? '1' : '0'; st.push_back({"the signal mask", t}); sigpending(&m); t.clear(); for (int s = 1; s < 65; ++s) t += sigismember(&m, s) == 1 ? '1' : '0'; st.push_back({"the pending signals", t});
	st.push_back({"the C locale", setlocale(LC_ALL, nullptr)}); st.push_back({"the C++ locale", std::locale().name()});
	st.push_back({"the floating-point rounding mode", std::to_string(fegetround())}); st.push_back({"the floating-point traps", std::to_string(fegetexcept())});
	stream(st, "cout", std::cout); stream(st, "cerr", std::cerr); stream(st, "clog", std::clog); stream(st, "cin", std::cin);
	mode_t u = umask(0); umask(u); st.push_back({"the umask", std::to_string(u)}); char d[4096]; st.push_back({"the working directory", getcwd(d, sizeof d) ? d : "?"});
	t.clear(); for (char** e = environ; e && *e; ++e) t += std::string(*e) + "\n"; st.push_back({"the environment", t});
	for (int r = 0; r < RLIM_NLIMITS; ++r) { struct rlimit l; if (!getrlimit(__rlimit_resource_t(r), &l)) st.push_back({"a resource limit", std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max)}); }
	for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { struct itimerval v; getitimer(__itimer_which_t(w), &v); st.push_back({"an interval timer", std::to_string(v.it_value.tv_sec != 0 || v.it_value.tv_usec != 0)}); }
	std::ostringstream o; o << (void*)std::get_terminate() << "/" << (void*)std::get_new_handler(); st.push_back({"the terminate or new handler", o.str()});
	char name[32] = {}; prctl(PR_GET_NAME, name); st.push_back({"the thread's name", name}); st.push_back({"the priority", std::to_string(getpriority(PRIO_PROCESS, 0))});
	for (const char* dir : {"/proc/self/task", "/proc/self/fd"}) { unsigned k = 0; if (DIR* p = opendir(dir)) { while (readdir(p)) ++k; closedir(p); } st.push_back({std::string("the number of entries of ") + dir, std::to_string(k)}); }
	int ws; pid_t w = waitpid(-1, &ws, WNOHANG); st.push_back({"the child processes", std::to_string(w)}); st.push_back({"the threads started", std::to_string(sim::threadsStarted)});
	return st; }
void same(Case& c, const State& a, const State& b, const std::string& when) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) c.fail(a[i].first + " changed" + when + ": was " + a[i].second.substr(0, 200) + ", is " + b[i].second.substr(0, 200)); }

// what is written to the standard output and error of the process
struct Output { int saved[2], file; Output() { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); file = memfd_create("output", 0); for (int i = 0; i < 2; ++i) { saved[i] = dup(i + 1); dup2(file, i + 1); } __sanitizer_set_report_fd(reinterpret_cast<void*>(intptr_t(saved[1]))); }
	std::string text() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); off_t n = lseek(file, 0, SEEK_END); std::string t(size_t(std::min<off_t>(n, 300)), 0); ssize_t k = pread(file, &t[0], t.size(), 0); (void)k; return t; }
	~Output() { text(); for (int i = 0; i < 2; ++i) { dup2(saved[i], i + 1); close(saved[i]); } close(file); __sanitizer_set_report_fd(reinterpret_cast<void*>(intptr_t(2))); } };
void onSignal(int) {}
struct Quiet : utils::LogAppenderIf { void print(utils::LogLevel, const std::string& m) override { errno = int(m.size() & 63); } };

void run(Case& c) {
	bool yaskawa = false; auto prog = generate(c, yaskawa); bool console = c.oneIn(4); unsigned seed = unsigned(c.below(1000)); bool odd = c.coin(); unsigned hits = 0, hits2 = 0;
	long failing = c.oneIn(3) ? long(c.below(60)) : -1; static const int errors[] = {EPIPE, ECONNRESET, EPIPE, ETIMEDOUT, ENOBUFS, EIO, EHOSTUNREACH, EINTR}; int error = errors[c.below(8)]; bool sends = c.coin(); // a call of a TCP socket that fails
	Output out; // a process with settings of its own
	if (console) utils::Logger::setAppender(std::make_unique<utils::ConsoleAppender>()); else utils::Logger::setAppender(std::make_unique<Quiet>());
	utils::Logger::setLogLevel(utils::LogLevel::TRACE); c.label(console ? "console appender" : "own appender");
	struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = odd ? SIG_DFL : onSignal; for (int s : {SIGPIPE, SIGALRM, SIGUSR1, SIGCHLD}) sigaction(s, &a, nullptr);
	setlocale(LC_ALL, odd ? "C" : "C.UTF-8"); umask(odd ? 022 : 027); std::cout.flags(odd ? std::ios::fmtflags(std::ios::dec | std::ios::skipws) : std::ios::hex | std::ios::showbase); std::cout.precision(odd ? 6 : 3); std::cout.fill(odd ? ' ' : '*'); std::cout.clear();
	srand(seed); int next[3]; for (auto& x : next) x = rand(); srand(seed);
	State before = snapshot(); std::map<int, std::string> disp; for (int s : {SIGPIPE, SIGALRM, SIGUSR1, SIGCHLD, SIGINT, SIGTERM}) disp[s] = disposition(s); std::string loc = setlocale(LC_ALL, nullptr); int round = fegetround();
	{ Body b(c, prog, yaskawa); b.n.fault = [&](const char* call, sim::Sock* sock) { // also while it is at work
			for (auto& d : disp) if (disposition(d.first) != d.second) abortCase("the disposition of signal " + std::to_string(d.first) + " is changed during " + call); if (setlocale(LC_ALL, nullptr) != loc) abortCase(std::string("the locale is changed during ") + call); if (fegetround() != round) abortCase(std::string("the rounding mode is changed during ") + call);
			if (sock && sock->type != SOCK_DGRAM && call != std::string("setsockopt") && (!sends || call == std::string("send")) && (error != EINTR || call == std::string("send") || call == std::string("recv")) && failing >= 0 && failing-- == 0) { ++hits2; return error; } return 0; };
		for (auto& o : prog) { b.measured(o, false); same(c, before, snapshot(), std::string(" by ") + kindName[o.kind]); if (!console) { std::string t = out.text(); EXPECT(c, t.empty(), "something was written to the standard output or error by " << kindName[o.kind] << ": " << t); } }
		hits = b.hits; b.n.fault = nullptr; b.calm = true; b.s.reset(); b.cm.reset(); }
	same(c, before, snapshot(), " by destroying everything"); for (int x : next) EXPECT(c, rand() == x, "the sequence of rand() was disturbed");
	if (!console) { std::string t = out.text(); EXPECT(c, t.empty(), "something was written to the standard output or error: " << t); }
	else { std::string t = out.text(); EXPECT(c, t.empty() || t[0] == '[', "something other than log lines was written: " << t); }
	utils::Logger::setAppender(std::make_unique<Quiet>()); if (hits) c.label("damage reached the client"); if (hits2) c.label("socket call failed"); c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C29",
	"A random program of 1-5 operations with damaged answers as in C25 (every operation, good and failing), run in a process with settings of its own (signal handlers, locale, umask, stream formats, random seed), with a silent or the console log appender. Oracle: after every operation and after destruction the observable process state (dispositions of all signals, signal mask, C and C++ locale, rounding mode and traps, state of the standard streams, umask, working directory, environment, limits, timers, terminate and new handlers, thread name, priority, numbers of threads, descriptors and children, threads started) is what it was, during every socket call dispositions, locale and rounding mode are, rand() continues its sequence, and nothing is written to standard output or error except by the console appender. Every case is non-trivial.",
	run, 128, 20000, 1000000, 0, 0};
