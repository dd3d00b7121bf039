#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <time.h>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "utils/Logger.h"

namespace pbt {

static const uint32_t REC_CAP = 1 << 16;
static const uint32_t MSG_CAP = 8192;
static const uint32_t DESC_CAP = 6000;
static const uint32_t BATCH_CAP = 4096;
static const uint32_t LABEL_CAP = 128;

struct Label { char name[48]; uint32_t count; };

// One per worker slot, in shared memory, so that it survives a crash of the child.
struct CaseResult {
	volatile uint64_t current;          // index of the case being run
	volatile uint32_t done;             // cases completed in this batch
	volatile uint32_t failed;           // current case failed by oracle
	uint32_t isNontrivial;
	uint32_t recCount;
	uint64_t rec[REC_CAP];
	char msg[MSG_CAP];
	char desc[DESC_CAP];
	// batch aggregates
	uint32_t evaluations, discards, nontrivialCount;
	uint64_t hashes[BATCH_CAP];
	uint32_t labelCount;
	Label labels[LABEL_CAP];
	uint32_t sampleCount;
	char samples[2][DESC_CAP];
};

static Case* g_case = nullptr;
static CaseResult* g_res = nullptr;
Case* currentCase() { return g_case; }

// ------------------------------------------------------------------ Source
static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Source::Source(uint64_t seed, uint64_t* rec, uint32_t* rc, uint32_t cap)
	: _mode(RANDOM), _rec(rec), _recCount(rc), _recCap(cap) {
	for (auto& s : _s) s = splitmix(seed);
}
Source::Source(const uint64_t* r, size_t n, uint64_t* rec, uint32_t* rc, uint32_t cap)
	: _mode(REPLAY), _replay(r), _replayN(n), _rec(rec), _recCount(rc), _recCap(cap) {}
Source::Source(const uint8_t* f, size_t n) : _mode(FUZZ), _fuzz(f), _fuzzN(n) {}

uint64_t Source::raw() {
	const uint64_t result = rotl(_s[1] * 5, 7) * 9;
	const uint64_t t = _s[1] << 17;
	_s[2] ^= _s[0]; _s[3] ^= _s[1]; _s[1] ^= _s[2]; _s[0] ^= _s[3];
	_s[2] ^= t; _s[3] = rotl(_s[3], 45);
	return result;
}

uint64_t Source::draw(uint64_t n) {
	uint64_t v = 0;
	if (n == 1) return 0;
	switch (_mode) {
	case RANDOM: v = n ? raw() % n : raw(); break;
	case REPLAY:
		if (_pos < _replayN) { v = _replay[_pos++]; if (n && v >= n) v %= n; }
		else _exhausted = true;
		break;
	case FUZZ: {
		unsigned need = 1;
		while (need < 8 && (n == 0 || (n - 1) >> (8 * need))) ++need;
		if (_pos >= _fuzzN) _exhausted = true;
		for (unsigned i = 0; i < need && _pos < _fuzzN; ++i) v |= uint64_t(_fuzz[_pos++]) << (8 * i);
		if (n) v %= n;
		break;
	}
	}
	if (_rec && *_recCount < _recCap) _rec[(*_recCount)++] = v;
	return v;
}

// ------------------------------------------------------------------ Case helpers
uint64_t Case::bits(unsigned w) {
	const uint64_t mask = w >= 64 ? ~0ull : ((1ull << w) - 1);
	switch (below(8)) {
	case 0: return below(4) & mask;
	case 1: { static const uint64_t b[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
		return b[below(16)] & mask; }
	case 2: return (1ull << below(w)) & mask;
	case 3: return (~(1ull << below(w))) & mask;
	case 4: { uint64_t lo = below(256); return (lo << (8 * below(w / 8))) & mask; }
	default: return (w >= 64 ? src.draw(0) : src.draw(mask + 1));
	}
}

size_t Case::size(size_t max, std::initializer_list<size_t> interesting) {
	switch (below(8)) {
	case 0: case 1: return std::min<size_t>(max, below(5));
	case 2: case 3: return std::min<size_t>(max, below(33));
	case 4: if (interesting.size()) return std::min(max, *(interesting.begin() + below(interesting.size())));
		return std::min<size_t>(max, below(260));
	case 5: return std::min<size_t>(max, below(260));
	case 6: return max ? max - below(std::min<size_t>(max, 3) + 1) : 0;
	default: return range(0, max);
	}
}

Bytes Case::bytes(size_t n) {
	Bytes b(n);
	if (!n) return b;
	if (n <= 24) { for (auto& x : b) x = uint8_t(below(256)); return b; }
	// long contents: one seed draw keeps the choice sequence short
	uint64_t kind = below(4), seed = src.draw(0);
	for (size_t i = 0; i < n; ++i) {
		if (kind == 0) b[i] = uint8_t(i * 7 + seed);
		else if (kind == 1) b[i] = uint8_t((i >> 8) + i + seed);
		else { if (i % 8 == 0) seed += 0x9e3779b97f4a7c15ull; uint64_t z = seed * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; b[i] = uint8_t(z >> (8 * (i % 8))); }
	}
	return b;
}

std::string Case::text(size_t n) {
	Bytes b = bytes(n);
	std::string s(b.begin(), b.end());
	if (below(3) != 2) for (auto& ch : s) ch = char('A' + (uint8_t(ch) % 26));
	return s;
}

void Case::label(const char* name) {
	if (!res) return;
	for (uint32_t i = 0; i < res->labelCount; ++i)
		if (!strncmp(res->labels[i].name, name, sizeof(res->labels[i].name) - 1)) { res->labels[i].count++; return; }
	if (res->labelCount < LABEL_CAP) {
		auto& l = res->labels[res->labelCount++];
		strncpy(l.name, name, sizeof(l.name) - 1); l.name[sizeof(l.name) - 1] = 0; l.count = 1;
	}
}
void Case::nontrivial() { if (res) res->isNontrivial = 1; }
bool Case::failed() const { return res && res->failed; }
void Case::note(const std::string& msg) {
	if (!res) { fprintf(stderr, "ORACLE FAILURE: %s\n", msg.c_str()); abort(); }
	if (!res->failed) { strncpy(res->msg, msg.c_str(), MSG_CAP - 1); res->msg[MSG_CAP - 1] = 0; res->failed = 1; }
}
void Case::fail(const std::string& msg) { note(msg); throw Failure{msg}; }
void Case::flushDesc() {
	if (!res) return;
	std::string d = desc.str();
	strncpy(res->desc, d.c_str(), DESC_CAP - 1); res->desc[DESC_CAP - 1] = 0;
}
void abortCase(const std::string& msg) {
	if (g_case) { g_case->note(msg); g_case->flushDesc(); }
	else { fprintf(stderr, "ABORT: %s\n", msg.c_str()); abort(); }
	_exit(78);
}

std::string hex(const uint8_t* p, size_t n, size_t max) {
	static const char* d = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; if (i + 1 < n) s += ' '; }
	if (n > max) s += "...(" + std::to_string(n) + " bytes)";
	return s;
}
std::string hex(const Bytes& b, size_t max) { return hex(b.data(), b.size(), max); }

// ------------------------------------------------------------------ running one case
struct NullAppender : eipScanner::utils::LogAppenderIf {
	void print(eipScanner::utils::LogLevel, const std::string& m) override { sink += m.size(); errno = EILSEQ; /* as a failing output would */ }
	static size_t sink;
};
size_t NullAppender::sink = 0;

static void prepareLogging(Case& c) {
	using namespace eipScanner::utils;
	// Logging must never influence behaviour: one case in four runs with full logging.
	bool trace = c.below(4) == 3;
	Logger::setAppender(std::make_unique<NullAppender>());
	Logger::setLogLevel(trace ? LogLevel::TRACE : LogLevel::OFF);
}

// returns true if the case passed (or was discarded)
static bool runCase(Source& src, CaseResult* res) {
	Case c(src, res);
	g_case = &c; g_res = res;
	if (res) { res->failed = 0; res->isNontrivial = 0; res->msg[0] = 0; res->desc[0] = 0; }
	bool discarded = false;
	try {
		prepareLogging(c);
		theProperty.run(c);
	} catch (const Failure& f) { c.note(f.msg); }
	catch (const Discard&) { discarded = true; }
	catch (const std::exception& e) { c.note(std::string("unexpected exception escaped: ") + e.what()); }
	catch (...) { c.note("unexpected non-standard exception escaped"); }
	c.flushDesc();
	g_case = nullptr;
	if (res) {
		res->evaluations++;
		if (discarded) res->discards++;
		return !res->failed;
	}
	return true;
}

static uint64_t fnv(const uint64_t* p, size_t n) {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; ++i) { uint64_t v = p[i]; for (int k = 0; k < 8; ++k) { h ^= v & 255; h *= 1099511628211ull; v >>= 8; } }
	return h;
}
static uint64_t caseSeed(uint64_t seed, uint64_t idx) {
	uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	for (const char* p = theProperty.id; *p; ++p) x = x * 131 + uint64_t(*p);
	x ^= idx * 0xd1342543de82ef95ull;
	splitmix(x);
	return splitmix(x);
}

static CaseResult* newShared() {
	void* p = mmap(nullptr, sizeof(CaseResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	memset(p, 0, sizeof(CaseResult));
	return static_cast<CaseResult*>(p);
}

static std::string g_tmp;
static void childSetup(const std::string& errFile) {
	int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	int n = open("/dev/null", O_RDWR);
	if (n >= 0) { dup2(n, 0); dup2(n, 1); close(n); }
	struct rlimit rl{0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPIPE, SIG_DFL);
}
static std::string readTail(const std::string& f, size_t max) {
	std::ifstream i(f, std::ios::binary);
	std::stringstream ss; ss << i.rdbuf();
	std::string s = ss.str();
	if (s.size() > max) s = s.substr(0, max);
	return s;
}

// ASan report -> one line
static std::string summarize(const std::string& err, int status) {
	std::string out;
	std::istringstream is(err);
	std::string line;
	int got = 0;
	while (std::getline(is, line) && got < 6) {
		if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos
			|| line.find("SUMMARY:") != std::string::npos || line.find("terminate called") != std::string::npos
			|| line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos
			|| line.find("    #0 ") != std::string::npos || line.find("    #1 ") != std::string::npos) { out += line + " | "; ++got; }
	}
	if (WIFSIGNALED(status)) out += "killed by signal " + std::to_string(WTERMSIG(status));
	else if (WIFEXITED(status)) out += "exit status " + std::to_string(WEXITSTATUS(status));
	return out;
}

static void nap(long us) { struct timespec ts{0, us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); }
static double now() {
	// raw system call: the library-level clock is simulated in some harnesses
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct RunOnce { bool failed = false; bool hang = false; std::string msg, desc; std::vector<uint64_t> rec; };

// Run one or several cases described by `body` in a forked child.
static RunOnce runForked(CaseResult* res, const std::function<bool()>& body, double limit) {
	static int n = 0;
	std::string err = g_tmp + "/one." + std::to_string(getpid()) + "." + std::to_string(n++ % 4) + ".err";
	res->failed = 0; res->recCount = 0; res->msg[0] = 0; res->desc[0] = 0; res->labelCount = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		childSetup(err);
		bool ok = body();
		_exit(ok ? 0 : 77);
	}
	RunOnce r; int st = 0;
	double t0 = now();
	for (;;) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; }
		nap(now() - t0 < 0.02 ? 200 : 2000);
	}
	r.failed = r.hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
	if (r.failed) {
		r.msg = res->failed ? res->msg : (r.hang ? "did not terminate within the time limit" : "crash: " + summarize(readTail(err, 200000), st));
		r.desc = res->desc;
	}
	r.rec.assign(res->rec, res->rec + std::min<uint32_t>(res->recCount, REC_CAP));
	unlink(err.c_str());
	return r;
}
static RunOnce runChoices(CaseResult* res, const std::vector<uint64_t>& ch, double limit) {
	return runForked(res, [&] {
		Source s(ch.data(), ch.size(), res->rec, &res->recCount, REC_CAP);
		return runCase(s, res);
	}, limit);
}

static const double HANG_S = 30;

// ------------------------------------------------------------------ shrinking
static std::vector<uint64_t> shrink(CaseResult* res, std::vector<uint64_t> best, std::string& msg, std::string& desc, bool hang, unsigned& execs) {
	double deadline = now() + (hang ? 60 : 90);
	const unsigned maxExec = hang ? 20 : 6000;
	double lim = hang ? 3 : 10;
	execs = 0;
	auto attempt = [&](std::vector<uint64_t> cand) {
		if (execs >= maxExec || now() > deadline) return false;
		++execs;
		RunOnce r = runChoices(res, cand, lim);
		if (!r.failed || (r.hang && !hang)) return false;
		// keep what was actually consumed, if that is no longer
		best = r.rec.size() && r.rec.size() <= cand.size() ? r.rec : cand;
		msg = r.msg; desc = r.desc;
		return true;
	};
	bool progress = true;
	while (progress && execs < maxExec && now() < deadline) {
		progress = false;
		for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() < deadline;) {
				auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + len);
				if (attempt(cand)) progress = true; else i += len;
			}
			if (len == 1) break;
		}
		for (size_t len : {16, 4, 1}) {
			for (size_t i = 0; i < best.size() && now() < deadline; i += len) {
				auto cand = best; bool ch = false;
				for (size_t k = i; k < i + len && k < cand.size(); ++k) if (cand[k]) { cand[k] = 0; ch = true; }
				if (ch && attempt(cand)) progress = true;
			}
		}
		for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
			uint64_t lo = 0;
			while (i < best.size() && best[i] > lo) {
				auto cand = best; uint64_t mid = lo + (best[i] - lo) / 2;
				cand[i] = mid;
				if (attempt(cand)) progress = true; else lo = mid + 1;
				if (execs >= maxExec) break;
			}
		}
	}
	return best;
}

// ------------------------------------------------------------------ JSON output
static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += char(ch);
	}
	return o + "\"";
}

static bool writeReplay(const std::string& path, const std::vector<uint64_t>& ch, const std::string& msg, const std::string& desc) {
	std::ofstream o(path);
	o << "property " << theProperty.id << "\n";
	o << "choices " << ch.size();
	for (auto v : ch) o << " " << v;
	o << "\n# failure: ";
	std::string m = msg; std::replace(m.begin(), m.end(), '\n', ' ');
	o << m << "\n";
	std::istringstream is(desc); std::string l;
	while (std::getline(is, l)) o << "# " << l << "\n";
	return bool(o);
}
static bool writeBatchReplay(const std::string& path, uint64_t seed, uint64_t start, uint64_t count, const std::string& msg) {
	std::ofstream o(path);
	o << "property " << theProperty.id << "\nbatch " << seed << " " << start << " " << count << "\n";
	std::string m = msg; std::replace(m.begin(), m.end(), '\n', ' ');
	o << "# failure: " << m << "\n";
	return bool(o);
}
static bool runBatchBody(CaseResult* res, uint64_t seed, uint64_t start, uint64_t count) {
	for (uint64_t i = start; i < start + count; ++i) {
		res->current = i; res->recCount = 0;
		Source s(caseSeed(seed, i), res->rec, &res->recCount, REC_CAP);
		if (!runCase(s, res)) return false;
	}
	return true;
}

static int doReplay(const std::string& path) {
	CaseResult* res = newShared();
	std::ifstream in(path);
	std::string line; std::vector<uint64_t> ch; bool have = false, batch = false; uint64_t bs = 0, b0 = 0, bn = 0;
	while (std::getline(in, line)) {
		std::istringstream is(line); std::string k; is >> k;
		if (k == "choices") { size_t n; is >> n; uint64_t v; while (is >> v) ch.push_back(v); have = true; }
		if (k == "batch") { is >> bs >> b0 >> bn; have = batch = true; }
	}
	if (!have) { fprintf(stderr, "no choices in %s\n", path.c_str()); return 3; }
	RunOnce r = batch ? runForked(res, [&] { return runBatchBody(res, bs, b0, bn); }, 4 * HANG_S) : runChoices(res, ch, HANG_S);
	printf("replay: %s\n", r.failed ? "FAILS" : "passes");
	if (r.failed) printf("failure: %s\n", r.msg.c_str());
	printf("%s\n", r.failed ? r.desc.c_str() : res->desc);
	return r.failed ? 1 : 0;
}

struct FailureRec { uint64_t idx; bool hang; uint64_t batchStart; uint32_t batchCount; std::string msg, desc; std::vector<uint64_t> rec; };

static int doRun(uint64_t seed, uint64_t cases, double budget, unsigned jobs, const std::string& outFile, const std::string& replayDir) {
	double t0 = now();
	struct Slot { CaseResult* res; pid_t pid = 0; uint64_t start = 0; uint32_t count = 0; double lastProgress = 0; uint64_t lastCur = ~0ull; std::string err; bool hang = false; };
	std::vector<Slot> slots(jobs);
	for (unsigned i = 0; i < jobs; ++i) { slots[i].res = newShared(); slots[i].err = g_tmp + "/w" + std::to_string(i) + ".err"; }
	CaseResult* one = newShared();
	uint64_t next = 0; unsigned batch = std::min(theProperty.batch, BATCH_CAP);
	uint64_t evals = 0, discards = 0, nontrivial = 0;
	std::unordered_set<uint64_t> hashes;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	std::vector<FailureRec> fails;
	unsigned active = 0;
	auto harvest = [&](Slot& s) {
		auto* r = s.res;
		evals += r->evaluations; discards += r->discards; nontrivial += r->nontrivialCount;
		for (uint32_t i = 0; i < r->nontrivialCount && i < BATCH_CAP; ++i) hashes.insert(r->hashes[i]);
		for (uint32_t i = 0; i < r->labelCount; ++i) labels[r->labels[i].name] += r->labels[i].count;
		for (uint32_t i = 0; i < r->sampleCount && samples.size() < 6; ++i) samples.push_back(r->samples[i]);
	};
	bool stop = false;
	for (;;) {
		for (auto& s : slots) {
			if (s.pid || stop) continue;
			if (next >= cases || (budget > 0 && now() - t0 > budget)) continue;
			s.start = next; s.count = uint32_t(std::min<uint64_t>(batch, cases - next)); next += s.count;
			auto* r = s.res;
			r->evaluations = r->discards = r->nontrivialCount = r->labelCount = r->sampleCount = 0; r->done = 0; r->failed = 0; r->current = s.start;
			bool wantSample = samples.size() < 6 && (s.start / std::max(1u, batch)) % 7 == 0;
			fflush(stdout);
			pid_t pid = fork();
			if (pid < 0) { perror("fork"); exit(3); }
			if (pid == 0) {
				childSetup(s.err);
				for (uint32_t k = 0; k < s.count; ++k) {
					r->current = s.start + k; r->recCount = 0;
					Source src(caseSeed(seed, s.start + k), r->rec, &r->recCount, REC_CAP);
					if (!runCase(src, r)) _exit(77);
					if (r->isNontrivial) {
						r->hashes[r->nontrivialCount++] = fnv(r->rec, r->recCount);
						if (wantSample && r->sampleCount < 2 && r->desc[0]) memcpy(r->samples[r->sampleCount++], r->desc, DESC_CAP);
					}
					r->done = k + 1;
				}
				_exit(0);
			}
			s.pid = pid; s.lastProgress = now(); s.lastCur = r->current; s.hang = false; ++active;
		}
		if (!active) break;
		int st; bool any = false;
		for (auto& s : slots) {
			if (!s.pid) continue;
			pid_t w = waitpid(s.pid, &st, WNOHANG);
			if (w == 0) {
				if (s.res->current != s.lastCur) { s.lastCur = s.res->current; s.lastProgress = now(); }
				else if (now() - s.lastProgress > HANG_S) { kill(s.pid, SIGKILL); s.hang = true; waitpid(s.pid, &st, 0); w = s.pid; }
			}
			if (w == s.pid) {
				any = true; --active; s.pid = 0;
				bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.hang;
				if (!ok) {
					auto* r = s.res;
					if (r->evaluations <= r->done) r->evaluations = r->done + 1;
					FailureRec f{r->current, s.hang, s.start, uint32_t(r->current - s.start + 1), "", r->desc, {}};
					f.msg = r->failed ? r->msg : s.hang ? "did not terminate within the time limit" : "crash: " + summarize(readTail(s.err, 200000), st);
					f.rec.assign(r->rec, r->rec + std::min<uint32_t>(r->recCount, REC_CAP));
					fails.push_back(f);
					if (fails.size() >= 4) stop = true;
					else if (s.count - f.batchCount > 0) {} // the remaining cases of this batch are skipped
				}
				harvest(s);
			}
		}
		if (!any) nap(300);
		if (fails.size() && now() - t0 > 5) stop = true;
	}
	for (auto& s : slots) unlink(s.err.c_str());

	// Confirm, shrink and write a replay file for the first reproducible failure.
	std::string violation, vmsg; unsigned shrinkExecs = 0, unreproduced = 0;
	std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) { return a.hang != b.hang ? !a.hang : a.rec.size() < b.rec.size(); });
	for (auto& f : fails) {
		RunOnce r = runChoices(one, f.rec, HANG_S);
		if (r.failed) {
			std::string msg = r.msg, desc = r.desc;
			auto best = shrink(one, f.rec, msg, desc, r.hang, shrinkExecs);
			bool all = true;
			for (int i = 0; i < 3 && all; ++i) { RunOnce q = runChoices(one, best, HANG_S); all = q.failed; if (q.failed) { msg = q.msg; desc = q.desc; } }
			if (!all) { best = f.rec; all = true; for (int i = 0; i < 3 && all; ++i) all = runChoices(one, best, HANG_S).failed; }
			if (all) {
				violation = replayDir + "/" + theProperty.id + ".replay";
				writeReplay(violation, best, msg, desc); vmsg = msg; break;
			}
		}
		// depends on earlier cases of the same process: the batch prefix is the history
		bool all = true;
		for (int i = 0; i < 3 && all; ++i) {
			RunOnce q = runForked(one, [&] { return runBatchBody(one, seed, f.batchStart, f.batchCount); }, HANG_S + 60);
			all = q.failed;
		}
		if (all) {
			// shorten the prefix
			uint64_t start = f.batchStart; uint32_t cnt = f.batchCount;
			double dl = now() + 60;
			while (cnt > 1 && now() < dl) {
				uint32_t half = cnt / 2;
				RunOnce q = runForked(one, [&] { return runBatchBody(one, seed, start + half, cnt - half); }, HANG_S + 60);
				if (q.failed) { start += half; cnt -= half; } else break;
			}
			violation = replayDir + "/" + theProperty.id + ".replay";
			writeBatchReplay(violation, seed, start, cnt, f.msg); vmsg = f.msg + " (needs the preceding cases of the batch)"; break;
		}
		++unreproduced;
	}

	std::ofstream o(outFile);
	o << "{\n \"evaluations\": " << evals << ",\n \"discarded\": " << discards << ",\n \"nontrivial\": " << nontrivial
	  << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"failures\": " << fails.size()
	  << ",\n \"unreproduced\": " << unreproduced << ",\n \"shrink_executions\": " << shrinkExecs
	  << ",\n \"violation\": " << jstr(violation) << ",\n \"message\": " << jstr(vmsg) << ",\n \"rule\": " << jstr(theProperty.rule)
	  << ",\n \"wall_s\": " << (now() - t0) << ",\n \"labels\": {";
	bool first = true;
	for (auto& l : labels) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
	o << "},\n \"unreproduced_messages\": [";
	first = true;
	if (unreproduced) for (auto& f : fails) { o << (first ? "" : ", ") << jstr(f.msg); first = false; }
	o << "],\n \"samples\": [";
	first = true;
	for (auto& s : samples) { o << (first ? "" : ", ") << jstr(s.substr(0, 1500)); first = false; }
	o << "]\n}\n";
	return violation.empty() ? 0 : 1;
}

// ------------------------------------------------------------------ libFuzzer
}
#ifdef WITH_LIBFUZZER
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
static pbt::CaseResult* g_fuzzRes;
static int fuzzOne(const uint8_t* d, size_t n) {
	using namespace pbt;
	Source s(d, n);
	g_fuzzRes->recCount = 0; g_fuzzRes->evaluations = 0; g_fuzzRes->labelCount = 0;
	if (!runCase(s, g_fuzzRes)) { fprintf(stderr, "ORACLE FAILURE: %s\n", g_fuzzRes->msg); abort(); }
	return 0;
}
#endif
namespace pbt {

int engineMain(int argc, char** argv) {
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	std::vector<std::string> rest;
	for (int i = 2; i < argc; ++i) {
		std::string a = argv[i];
		auto eq = a.find('=');
		if (a.rfind("--", 0) == 0 && eq != std::string::npos) opt[a.substr(2, eq - 2)] = a.substr(eq + 1);
		else rest.push_back(a);
	}
	auto num = [&](const char* k, double d) { return opt.count(k) ? atof(opt[k].c_str()) : d; };
	g_tmp = opt.count("tmp") ? opt["tmp"] : "/tmp";
	if (mode == "info") {
		printf("{\"id\": \"%s\", \"quick\": %llu, \"thorough\": %llu, \"fuzzMax\": %u, \"quickFuzzRuns\": %llu, \"rule\": %s}\n", theProperty.id,
			(unsigned long long)theProperty.quickCases, (unsigned long long)theProperty.thoroughCases, theProperty.fuzzMax,
			(unsigned long long)theProperty.quickFuzzRuns, jstr(theProperty.rule).c_str());
		return 0;
	}
	if (mode == "run")
		return doRun(strtoull(opt["seed"].c_str(), nullptr, 10), uint64_t(num("cases", 1000)), num("budget", 0), unsigned(num("jobs", 8)), opt["out"], opt["replaydir"]);
	if (mode == "replay") return rest.empty() ? 3 : doReplay(rest[0]);
	if (mode == "fuzzconfirm") {
		// turn a libFuzzer artifact into a confirmed, shrunk replay file
		CaseResult* res = newShared();
		std::ifstream in(rest[0], std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string data = ss.str();
		RunOnce r = runForked(res, [&] { 
			Source f(reinterpret_cast<const uint8_t*>(data.data()), data.size());
			f.recordTo(res->rec, &res->recCount, REC_CAP);
			return runCase(f, res); }, HANG_S);
		if (!r.failed) { printf("not reproduced\n"); return 0; }
		std::string msg = r.msg, desc = r.desc; unsigned ex = 0;
		auto ch = r.rec;
		RunOnce q = runChoices(res, ch, HANG_S);
		if (!q.failed) { printf("not reproduced as choices\n"); return 0; }
		auto best = shrink(res, ch, msg, desc, q.hang, ex);
		for (int i = 0; i < 3; ++i) if (!runChoices(res, best, HANG_S).failed) { printf("unstable\n"); return 0; }
		std::string path = opt["replaydir"] + "/" + theProperty.id + ".replay";
		writeReplay(path, best, msg, desc);
		printf("%s\n%s\n", path.c_str(), msg.c_str());
		return 1;
	}
#ifdef WITH_LIBFUZZER
	if (mode == "fuzz") {
		g_fuzzRes = newShared();
		std::vector<char*> av{argv[0]};
		for (int i = 2; i < argc; ++i) av.push_back(argv[i]);
		int n = int(av.size()); av.push_back(nullptr); char** a = av.data();
		return LLVMFuzzerRunDriver(&n, &a, fuzzOne);
	}
#endif
	fprintf(stderr, "usage: %s run|replay|info|fuzz\n", argv[0]);
	return 3;
}
}
int main(int argc, char** argv) { return pbt::engineMain(argc, argv); }
