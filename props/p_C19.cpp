// C19: logger against a model of levels, appenders and message lifetimes.
#include "engine.h"
#include "utils/Logger.h"
#include <iomanip>
#include <iostream>
#include <optional>
using namespace pbt;
using namespace eipScanner::utils;

namespace {
struct Rec { int appender; LogLevel level; std::string text; bool operator==(const Rec& o) const { return appender == o.appender && level == o.level && text == o.text; } };
std::vector<Rec> g_got;
struct Recorder : LogAppenderIf { int id; explicit Recorder(int i) : id(i) {} void print(LogLevel l, const std::string& m) override { g_got.push_back({id, l, m}); } };
// gets the message, then fails
struct Thrower : Recorder { unsigned what; Thrower(int i, unsigned w) : Recorder(i), what(w) {} void print(LogLevel l, const std::string& m) override { Recorder::print(l, m); switch (what) { case 0: throw std::runtime_error("disk full"); case 1: throw 5; case 2: throw std::bad_alloc(); default: throw std::string("no"); } } };
struct Unwinding { LogLevel l; uint32_t v; ~Unwinding() { Logger(l) << "v=" << v; } }; // logs while an exception is on its way
struct CaptureCout { std::ostringstream s; std::streambuf* old; CaptureCout() : old(std::cout.rdbuf(s.rdbuf())) {} ~CaptureCout() { std::cout.rdbuf(old); } };

const char* tag(LogLevel l) { switch (l) { case LogLevel::TRACE: return "[TRACE] "; case LogLevel::DEBUG: return "[DEBUG] "; case LogLevel::INFO: return "[INFO] "; case LogLevel::WARNING: return "[WARNING] "; default: return "[ERROR] "; } }
LogLevel msgLevel(Case& c) { return LogLevel(1 + c.below(5)); }

struct Open { std::unique_ptr<Logger> log; std::ostringstream model; LogLevel level; bool direct = true; };

// one streamed part, applied to the logger and to the model alike
void part(Case& c, Open& o) {
	Logger& l = *o.log; std::ostringstream& m = o.model;
	switch (c.below(9)) {
	case 0: { std::string s = c.text(c.size(400, {255, 256})); for (auto& ch : s) if (ch == '\n') ch = ' '; l << s; m << s; break; }
	case 1: { l << "text "; m << "text "; break; }
	case 2: { int v = int(c.u32()); l << v; m << v; break; }
	case 3: { uint64_t v = c.u64(); l << v; m << v; break; }
	case 4: { char v = char('a' + c.below(26)); l << v; m << v; break; }
	case 5: { double v = double(int32_t(c.u32())) / 16; l << v; m << v; break; }
	case 6: { uint32_t v = c.u32(); l << "0x" << std::hex << v << std::dec << ";"; m << "0x" << std::hex << v << std::dec << ";"; break; }
	case 7: { bool v = c.coin(); l << v; m << v; break; }
	case 8: { uint16_t v = c.u16(); l << std::string("w=") << std::setw(6) << v; m << std::string("w=") << std::setw(6) << v; break; }
	}
}

void run(Case& c) {
	g_got.clear();
	std::vector<Rec> want; CaptureCout cap; std::string wantOut;
	LogLevel global = LogLevel(c.below(6)); Logger::setLogLevel(global);
	int cur = 0, next = 1; bool console = false, none = false;
	Logger::setAppender(std::make_unique<Recorder>(0));
	c.desc << "level " << int(global) << ":";
	std::vector<Open> open;
	unsigned n = 2 + unsigned(c.below(30)), emitted = 0, suppressed = 0, changedWhileOpen = 0;
	auto complete = [&](size_t i) {
		bool on = global != LogLevel::OFF && int(open[i].level) <= int(global);
		std::string text = open[i].model.str();
		c.desc << " done#" << int(open[i].level) << (on ? "+" : "-");
		open[i].log.reset();
		if (on) { ++emitted; if (console) wantOut += tag(open[i].level) + text + "\n"; else if (!none) want.push_back({cur, open[i].level, text}); } else ++suppressed;
		open.erase(open.begin() + long(i));
		EXPECT(c, g_got == want, "after completing a message of level " << int(want.size() ? want.back().level : LogLevel::OFF) << ": " << g_got.size() << " messages reached appenders, expected " << want.size());
		expectEq(c, cap.s.str(), wantOut, "console output");
	};
	for (unsigned k = 0; k < n; ++k) {
		switch (c.below(8)) {
		case 0: global = LogLevel(c.below(6)); Logger::setLogLevel(global); c.desc << " level=" << int(global); if (!open.empty()) ++changedWhileOpen; break;
		case 1: none = false; if (c.oneIn(6)) { none = true; console = false; Logger::setAppender(nullptr); c.desc << " no appender"; c.label("no appender"); }
			else if (c.oneIn(4)) { console = false; cur = next++; Logger::setAppender(std::make_unique<Thrower>(cur, unsigned(c.below(4)))); c.desc << " throwing appender=" << cur; c.label("throwing appender"); }
			else if (c.oneIn(3)) { console = true; Logger::setAppender(std::make_unique<ConsoleAppender>()); c.desc << " console"; c.label("console"); }
			else { console = false; cur = next++; Logger::setAppender(std::make_unique<Recorder>(cur)); c.desc << " appender=" << cur; }
			if (!open.empty()) ++changedWhileOpen; break;
		case 2: case 3: { Open o; o.level = msgLevel(c); o.log = std::make_unique<Logger>(o.level); c.desc << " open#" << int(o.level); open.push_back(std::move(o)); break; }
		case 4: case 5: if (!open.empty()) part(c, open[c.below(open.size())]); break;
		case 6: if (!open.empty()) complete(c.below(open.size())); break;
		case 7: { // the usual one-line form
			LogLevel l = msgLevel(c); uint32_t v = c.u32(); std::ostringstream m; m << "v=" << v << " " << std::hex << v;
			if (c.oneIn(4)) { m.str(""); m << "v=" << std::dec << v; c.desc << " unwinding"; bool caught = false; try { Unwinding u{l, v}; throw std::runtime_error("x"); } catch (const std::runtime_error& e) { caught = std::string(e.what()) == "x"; } EXPECT(c, caught, "the exception on its way was replaced by one of the appender"); }
			else try { Logger(l) << "v=" << v << " " << std::hex << v; } catch (...) { c.fail("a logged line throws what its appender threw"); }
			bool on = global != LogLevel::OFF && int(l) <= int(global); c.desc << " line#" << int(l) << (on ? "+" : "-");
			if (on) { ++emitted; if (console) wantOut += tag(l) + m.str() + "\n"; else if (!none) want.push_back({cur, l, m.str()}); } else ++suppressed;
			EXPECT(c, g_got == want, "one-line message of level " << int(l) << " with global level " << int(global) << ": " << g_got.size() << " messages, expected " << want.size());
			expectEq(c, cap.s.str(), wantOut, "console output"); break; }
		}
		EXPECT(c, g_got.size() == want.size(), "a message was emitted although none was completed");
	}
	while (!open.empty()) complete(open.size() - 1);
	EXPECT(c, g_got == want, "messages at the end differ");
	if (emitted) c.label("emitted"); if (suppressed) c.label("suppressed"); if (changedWhileOpen) c.label("level or appender changed while a message was open");
	if (emitted + suppressed >= 2) c.nontrivial();
	Logger::setAppender(std::make_unique<Recorder>(-1)); Logger::setLogLevel(LogLevel::OFF);
}
}
extern const Property pbt::theProperty = {"C19",
	"Random histories of up to 31 steps: set the global level, replace the appender (recording, failing with an exception, none at all, or console with std::cout captured), open messages that overlap in time, stream parts of many types into them, complete them in any order, also while an exception unwinds; after each completion the sequence of (appender, level, text) must equal the model's. Non-trivial: at least two messages were completed.",
	run, 512, 120000, 3000000, 120, 80000};
