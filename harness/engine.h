// Property-based testing engine: choice-sequence generator, case context, runner.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <type_traits>
#include <initializer_list>

namespace pbt {

using Bytes = std::vector<uint8_t>;

// Thrown when an oracle disagrees with the code under test.
struct Failure { std::string msg; };
// Thrown when a generated case is outside the property's domain.
struct Discard {};

// ---------------------------------------------------------------------------------------------
// Source: every random decision of a case is one draw; the sequence of draws identifies the case.
class Source {
public:
	enum Mode { RANDOM, REPLAY, FUZZ };
	Source(uint64_t seed, uint64_t* rec, uint32_t* recCount, uint32_t recCap);
	Source(const uint64_t* replay, size_t n, uint64_t* rec, uint32_t* recCount, uint32_t recCap);
	Source(const uint8_t* fuzz, size_t n);

	// uniform in [0, n); n == 0 means the full 64-bit range
	uint64_t draw(uint64_t n);
	void recordTo(uint64_t* rec, uint32_t* count, uint32_t cap) { _rec = rec; _recCount = count; _recCap = cap; }
	bool exhausted() const { return _mode != RANDOM && _exhausted; }
private:
	uint64_t raw();
	Mode _mode;
	uint64_t _s[4]{};
	const uint64_t* _replay = nullptr; size_t _replayN = 0, _pos = 0;
	const uint8_t* _fuzz = nullptr; size_t _fuzzN = 0;
	uint64_t* _rec = nullptr; uint32_t* _recCount = nullptr; uint32_t _recCap = 0;
	bool _exhausted = false;
};

struct CaseResult;   // shared-memory block

class Case {
public:
	Case(Source& s, CaseResult* r) : src(s), res(r) {}
	Source& src;
	CaseResult* res;

	// --- generation helpers (0 is always the simplest choice)
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : src.draw(n); }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + (hi - lo == UINT64_MAX ? src.draw(0) : below(hi - lo + 1)); }
	bool coin() { return src.draw(2) == 1; }
	bool oneIn(uint64_t n) { return src.draw(n) == n - 1; }    // false is the simple choice
	// A value of T mixing boundaries, single bits, small and uniform values.
	uint64_t bits(unsigned width);
	template <class T> T any() { return static_cast<T>(bits(sizeof(T) * 8)); }
	uint8_t u8() { return any<uint8_t>(); }
	uint16_t u16() { return any<uint16_t>(); }
	uint32_t u32() { return any<uint32_t>(); }
	uint64_t u64() { return any<uint64_t>(); }
	// Size: mostly small, sometimes up to max, with boundary values favoured.
	size_t size(size_t max, std::initializer_list<size_t> interesting = {});
	Bytes bytes(size_t n);                       // n random bytes (constant, counter, or random pattern)
	Bytes bytesUpTo(size_t max, std::initializer_list<size_t> interesting = {}) { return bytes(size(max, interesting)); }
	std::string text(size_t n);
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }

	// --- reporting
	std::ostringstream desc;                     // human-readable description of the case
	void label(const char* name);                // classification counter
	void nontrivial();                           // this case satisfies the property's non-triviality rule
	bool failed() const;
	[[noreturn]] void fail(const std::string& msg);
	void note(const std::string& msg);           // record failure without throwing (callable from anywhere)
	void flushDesc();
};

struct Property {
	const char* id;
	const char* rule;                            // how cases are made and what makes one non-trivial
	void (*run)(Case&);
	unsigned batch;                              // cases per forked process (1 = process per case)
	uint64_t quickCases, thoroughCases;
	unsigned fuzzMax;                            // max input bytes when driven by libFuzzer (0 = not fuzzed)
	uint64_t quickFuzzRuns;
};
extern const Property theProperty;               // defined by exactly one p_*.cpp per binary

std::string hex(const Bytes& b, size_t max = 64);
std::string hex(const uint8_t* p, size_t n, size_t max = 64);

template <class A, class B>
inline void expectEq(Case& c, const A& got, const B& want, const std::string& what) {
	if (!(got == want)) {
		std::ostringstream os;
		if constexpr (std::is_integral_v<A> || std::is_enum_v<A>) os << what << ": got " << +static_cast<long long>(got) << " (0x" << std::hex << static_cast<unsigned long long>(got) << ") want 0x" << static_cast<unsigned long long>(want);
		else if constexpr (std::is_same_v<A, Bytes>) os << what << ": got [" << got.size() << "] " << hex(got) << " want [" << want.size() << "] " << hex(want);
		else os << what << ": got <" << got << "> want <" << want << ">";
		c.fail(os.str());
	}
}
#define EXPECT(c, cond, msg) do { if (!(cond)) { std::ostringstream os_; os_ << msg << "  [" #cond "]"; (c).fail(os_.str()); } } while (0)

// Outcome of calling code under test.
enum class Outcome { OK, RUNTIME_ERROR };
// Calls f; OK or a std::runtime_error (incl. system_error) is returned; anything else is a failure.
template <class F>
Outcome guarded(Case& c, const std::string& what, F&& f, std::string* text = nullptr) {
	try { f(); return Outcome::OK; }
	catch (const Failure&) { throw; }
	catch (const Discard&) { throw; }
	catch (const std::runtime_error& e) { if (text) *text = e.what(); return Outcome::RUNTIME_ERROR; }
	catch (const std::exception& e) { c.fail(what + ": exception not derived from std::runtime_error: " + e.what()); }
	catch (...) { c.fail(what + ": non-standard exception"); }
}
template <class F>
void mustThrow(Case& c, const std::string& what, F&& f) {
	if (guarded(c, what, f) == Outcome::OK) c.fail(what + ": accepted, but std::runtime_error was required");
}
template <class F>
void mustPass(Case& c, const std::string& what, F&& f) {
	std::string t;
	if (guarded(c, what, f, &t) != Outcome::OK) c.fail(what + ": unexpected exception: " + t);
}

// Terminates the current case as a failure from any context (even inside noexcept code).
[[noreturn]] void abortCase(const std::string& msg);
Case* currentCase();

int engineMain(int argc, char** argv);
}
