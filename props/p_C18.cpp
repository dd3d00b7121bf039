// C18: PowerFlex 525 fault queue and fault object.
#include "device.h"
#include "pf525.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
#include <cmath>
#include <memory>
using namespace pbt;
using namespace eipScanner;
using namespace eipScanner::vendor::ra::powerFlex525;

namespace {
// The drive's own table of fault codes, independent of the library's
const pf525::Row* row(uint16_t code) { for (auto& r : pf525::table) if (r.code == code) return &r; return nullptr; }
bool known(uint16_t code) { return row(code) != nullptr; }
std::string trim(const std::string& s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); }
void describes(Case& c, const DPIFaultCode::FaultDescriptions& d, uint16_t code) { const pf525::Row* r = row(code); if (!r) c.fail("unknown code reported"); expectEq(c, d.faultType, r->type, "fault type"); expectEq(c, trim(d.faultText), trim(r->text), "fault text"); expectEq(c, trim(d.faultDescription), trim(r->description), "fault description"); }
int codeParam(int n) { return n <= 3 ? 6 + n : 600 + n; }
int readParam(Case& c, const dev::Exchange& x) { // checked request of attribute 1 of a parameter
	expectEq(c, x.req.service, uint8_t(0x0E), "service reading a fault parameter"); EXPECT(c, x.req.path == wire::path(0x0F, x.req.path.id[1], 1), "path reading a fault parameter: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes(), "data of a parameter read"); return x.req.path.id[1]; }
void nearTo(Case& c, double got, double want, const char* what) { if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { std::ostringstream o; o << what << ": got " << got << " want " << want; c.fail(o.str()); } }

void queue(Case& c) {
	static const std::vector<uint16_t> good = [] { std::vector<uint16_t> v; for (auto& r : pf525::table) if (r.code) v.push_back(uint16_t(r.code)); return v; }();
	auto d = std::make_shared<dev::Device>(c, c.u32());
	bool defaults = c.oneIn(5), clear = defaults || c.coin(), reset = !defaults && c.coin(), details = !defaults && c.coin();
	std::unique_ptr<DPIFaultManager> m = defaults ? std::make_unique<DPIFaultManager>() : std::make_unique<DPIFaultManager>(clear, reset, details);
	unsigned rounds = 1 + unsigned(c.below(3));
	c.desc << (clear ? "clear " : "keep ") << (details ? "details" : "codes only");
	for (unsigned round = 0; round < rounds; ++round) {
		unsigned len = unsigned(c.below(11)); if (c.oneIn(4)) len = 10;
		struct F { uint16_t code, volt, cur, freq; }; std::vector<F> q(10);
		for (unsigned i = 0; i < 10; ++i) { q[i] = {i < len ? good[c.below(good.size())] : uint16_t(0), c.u16(), c.u16(), c.u16()}; }
		if (len < 9 && c.oneIn(3)) for (unsigned i = len + 1; i < 10; ++i) q[i].code = good[c.below(good.size())]; // stale entries after the end must not be visited
		// fault: at position p, parameter kind k: 1 error status, 2 short, 3 session error, 4 unknown code; kind 5: error of the clear command
		int fault = c.below(3) == 2 ? 1 + int(c.below(6)) : 0; unsigned visits = std::min(10u, len + 1), at = unsigned(c.below(visits)), kind = 0; uint8_t err = dev::errorStatus(c);
		bool hasDetails = details && at < len; if (fault && fault < 4) kind = hasDetails ? unsigned(c.below(4)) : 0;
		if (fault == 4) { if (at >= len) at = len ? len - 1 : 0; if (!len) fault = 0; else { uint16_t k; unsigned tries = 0; do { k = c.u16(); if (++tries > 20) k = 60000; } while (k == 0 || known(k)); q[at].code = k; } }
		if (fault >= 5 && !(clear && len)) fault = 0;
		c.desc << " | queue of " << len; if (fault) c.desc << " fault " << fault << " at " << at + 1 << "/" << kind;
		c.label(fault == 0 ? "no fault injected" : fault == 1 ? "error status" : fault == 2 ? "short reply" : fault == 3 ? "session error" : fault == 4 ? "unknown fault code" : "clearing refused"); if (len == 10) c.label("full queue"); if (len == 0) c.label("empty queue");
		// --- device: the exact sequence of reads
		struct Step { int param; uint16_t value; unsigned pos, kind; }; std::vector<Step> want;
		for (unsigned i = 0; i < visits; ++i) { want.push_back({codeParam(int(i) + 1), q[i].code, i, 0}); if (i < len && details) { want.push_back({651 + int(i), q[i].volt, i, 1}); want.push_back({641 + int(i), q[i].cur, i, 2}); want.push_back({631 + int(i), q[i].freq, i, 3}); } }
		std::vector<bool> seen(want.size()); unsigned pos = 0, clears = 0, reads = 0, listener = 0; bool failedReply = false;
		auto groupStart = [&](unsigned p) { size_t k = 0; while (k < want.size() && want[k].pos != p) ++k; return k; };
		d->onRequest = [&](const dev::Exchange& x) {
			wire::Reply r; r.service = x.req.service | 0x80; if (failedReply) c.fail("a request was sent after a failed one");
			if (x.req.service == 0x10) {
				EXPECT(c, x.req.path == wire::path(0x97, 0, 3), "path of the command: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes{2}, "command"); EXPECT(c, clear, "the queue was cleared though that was not requested"); EXPECT(c, len > 0, "an empty queue was cleared"); expectEq(c, listener, len, "faults reported before the queue is cleared");
				for (bool s : seen) EXPECT(c, s, "the queue was cleared before it was read"); EXPECT(c, ++clears == 1, "the queue was cleared twice"); if (fault == 5) { r.status = err; failedReply = true; } if (fault == 6) { failedReply = true; throw std::runtime_error("lost"); } return r; }
			int param = readParam(c, x); ++reads;
			// positions in order; within a position the code first, then the details in any order
			size_t k = 0; while (k < want.size() && (seen[k] || want[k].param != param)) ++k;
			if (k == want.size()) c.fail("unexpected read of parameter " + std::to_string(param));
			for (size_t j = 0; j < want.size(); ++j) if (want[j].pos < want[k].pos) EXPECT(c, seen[j], "parameter " << param << " read before parameter " << want[j].param);
			if (want[k].kind) EXPECT(c, seen[groupStart(want[k].pos)], "details of a fault read before its code"); if (want[k].pos > listener) c.fail("position " + std::to_string(want[k].pos + 1) + " was read before the previous fault was reported");
			seen[k] = true; pos = want[k].pos; r.data = wire::W().u16(want[k].value).b;
			bool here = fault && fault < 4 && want[k].pos == at && want[k].kind == kind;
			if (here) failedReply = true; if (here && fault == 3) throw std::runtime_error("lost");
			if (here && fault == 1) { r.status = err; if (c.coin()) r.data.clear(); if (c.coin()) r.ext.push_back(c.u16()); } if (here && fault == 2) r.data.resize(c.below(2));
			if (!here && c.oneIn(10)) r.data.push_back(c.u8()); return r; };
		bool withListener = !c.oneIn(10);
		auto onFault = [&](const DPIFaultParameter& f) {
			auto& i = f.getFullInformation(); auto& fd = f.getFaultDetails(); unsigned n = listener++; if (n >= len) c.fail("more faults reported than queued");
			if (fault == 4 && n == at) c.fail("a fault with an unknown code was reported");
			expectEq(c, fd.faultNumber, int(n) + 1, "position of the reported fault"); expectEq(c, fd.faultCode, q[n].code, "code of the reported fault"); expectEq(c, i.faultDetails.faultCode, q[n].code, "code in the full information");
			describes(c, i.faultDescription, q[n].code);
			nearTo(c, fd.busVoltage, details ? q[n].volt : 0, "bus voltage"); nearTo(c, fd.current, details ? q[n].cur / 100.0 : 0, "current"); nearTo(c, fd.frequency, details ? q[n].freq / 100.0 : 0, "frequency"); };
		if (withListener) m->setNewFaultListener(onFault); else { m->setNewFaultListener([&](const DPIFaultParameter&) { ++listener; }); }
		size_t before = d->log.size(); auto go = [&] { if (c.coin()) m->handleFaultParameters(d); else m->handleFaultParameters(d, std::make_shared<MessageRouter>()); };
		if (fault) { mustThrow(c, "reading the queue with an injected fault", go); expectEq(c, clears, fault >= 5 ? 1u : 0u, "clear commands after a failure"); expectEq(c, listener, fault < 5 ? at : len, "faults reported before the failure"); }
		else { mustPass(c, "reading the queue", go); expectEq(c, listener, len, "faults reported"); expectEq(c, clears, clear && len ? 1u : 0u, "clear commands"); expectEq(c, d->log.size() - before, want.size() + clears, "requests sent"); for (size_t k = 0; k < want.size(); ++k) EXPECT(c, seen[k], "parameter " << want[k].param << " was not read"); }
		if (len || fault) c.nontrivial();
	}
}
void single(Case& c) { // one position
	auto d = std::make_shared<dev::Device>(c, c.u32()); int n = c.coin() ? int(c.range(1, 10)) : c.oneIn(2) ? c.pick({0, -1, 11, 12, 100, -2147483647 - 1, 2147483647, 266, 7, 604}) : int(int32_t(c.u32())); bool details = c.coin(), bad = n < 1 || n > 10; uint16_t code = c.oneIn(4) ? 0 : c.u16();
	c.desc << "position " << n << " code " << code << (details ? " with details" : ""); c.label(bad ? "position out of range" : "single position");
	uint16_t v[4] = {code, c.u16(), c.u16(), c.u16()}; unsigned asked = 0;
	d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = 0x8E; EXPECT(c, !bad, "request for a position out of range"); int p = readParam(c, x); int k = p == codeParam(n) ? 0 : p == 650 + n ? 1 : p == 640 + n ? 2 : p == 630 + n ? 3 : -1; if (k < 0) c.fail("unexpected parameter " + std::to_string(p)); if (k) EXPECT(c, details && code, "details read without need"); EXPECT(c, !(asked >> k & 1), "parameter read twice"); asked |= 1u << k; r.data = wire::W().u16(v[k]).b; return r; };
	std::unique_ptr<DPIFaultParameter> f; auto make = [&] { f = std::make_unique<DPIFaultParameter>(d, std::make_shared<MessageRouter>(), n, details); }; c.nontrivial();
	if (bad) { mustThrow(c, "fault position out of range", make); return; }
	mustPass(c, "fault position", make); expectEq(c, asked, details && code ? 15u : 1u, "parameters read");
	auto& i = f->getFaultDetails(); expectEq(c, i.faultNumber, n, "position"); expectEq(c, i.faultCode, code, "code"); bool full = details && code; nearTo(c, i.busVoltage, full ? v[1] : 0, "bus voltage"); nearTo(c, i.current, full ? v[2] / 100.0 : 0, "current"); nearTo(c, i.frequency, full ? v[3] / 100.0 : 0, "frequency");
}
void object(Case& c) { // fault object
	auto d = std::make_shared<dev::Device>(c, c.u32()); uint16_t instance = c.u16(); uint16_t code = c.u16(), flags = c.u16(); uint8_t port = c.u8(), devobj = c.u8(); std::string text = c.text(16); uint64_t timer = c.u64();
	if (c.coin()) flags &= 3;
	wire::Reply r; r.service = 0x8E; r.data = wire::W().u16(code).u8(port).u8(devobj).str(text).u64(timer).u16(flags).b; unsigned k = unsigned(c.below(6)); bool bad = false;
	c.desc << "fault object " << instance << " code " << code << " flags " << flags;
	if (k == 1) { r.status = dev::errorStatus(c); if (c.coin()) r.data.clear(); bad = true; c.label("fault object refused"); } if (k == 2 || k == 3) { r.data.resize(c.coin() ? 29 - c.below(3) : c.below(30)); bad = true; c.desc << " cut to " << r.data.size(); c.label("fault object cut"); } if (k == 4) { Bytes t = c.bytesUpTo(9); r.data.insert(r.data.end(), t.begin(), t.end()); }
	d->onRequest = [&](const dev::Exchange& x) { expectEq(c, x.req.service, uint8_t(0x0E), "service"); EXPECT(c, x.req.path == wire::path(0x97, instance, 0), "path: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes(), "data"); return r; };
	std::unique_ptr<DPIFaultObject> o; auto make = [&] { if (c.coin()) o = std::make_unique<DPIFaultObject>(instance, d); else o = std::make_unique<DPIFaultObject>(instance, d, std::make_shared<MessageRouter>()); }; c.nontrivial();
	if (bad) { mustThrow(c, "fault object", make); return; }
	mustPass(c, "fault object", make); c.label("fault object read"); expectEq(c, d->log.size(), size_t(1), "requests"); auto& i = o->getFullInformation(); expectEq(c, i.faultCode, code, "code"); expectEq(c, i.dsiPort, port, "port"); expectEq(c, i.dsiDeviceObject, devobj, "device object"); expectEq(c, i.faultText.toStdString(), text, "text"); expectEq(c, i.timerValue, timer, "timer"); expectEq(c, i.isValidData, bool(flags & 1), "valid flag"); expectEq(c, i.isRealTime, bool(flags & 2), "real-time flag"); expectEq(c, o->getInstanceId(), instance, "instance id"); expectEq(c, o->getClassId(), uint16_t(0x97), "class id");
}
void command(Case& c) {
	auto d = std::make_shared<dev::Device>(c, c.u32()); uint8_t cmd = uint8_t(c.below(4)), st = c.coin() ? 0 : dev::errorStatus(c); DPIFaultManager m; c.desc << "command " << int(cmd) << " status " << int(st); c.label("command");
	d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = 0x90; r.status = st; expectEq(c, x.req.service, uint8_t(0x10), "service of a command"); EXPECT(c, x.req.path == wire::path(0x97, 0, 3), "path of a command: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes{cmd}, "command value"); return r; };
	auto go = [&] { if (c.coin()) m.writeCommand(DPIFaultManagerCommands(cmd), d); else m.writeCommand(DPIFaultManagerCommands(cmd), d, std::make_shared<MessageRouter>()); };
	if (st) mustThrow(c, "refused command", go); else mustPass(c, "command", go); expectEq(c, d->log.size(), size_t(1), "requests of a command"); c.nontrivial();
}
void code(Case& c) {
	int k = c.coin() ? int(c.below(140)) : c.u16(); if (c.oneIn(4)) k = c.coin() ? -1 - k : int(uint32_t(k) | c.u32() << 16); bool in = k >= 0 && k <= 0xFFFF; auto known = [in](int x) { return in && ::known(uint16_t(x)); }; c.desc << "code " << k; c.label(known(k) ? "known code" : "unknown code"); c.nontrivial(); DPIFaultCode::FaultDescriptions d; auto get = [&] { d = DPIFaultCode(k).getFaultDescription(); };
	if (known(k)) { mustPass(c, "description of a known code", get); describes(c, d, k); } else mustThrow(c, "description of an unknown code", get);
}
void run(Case& c) { switch (c.below(8)) { case 0: case 1: case 2: case 3: queue(c); break; case 4: single(c); break; case 5: case 6: object(c); break; default: if (c.oneIn(3)) code(c); else command(c); } }
}
extern const Property pbt::theProperty = {"C18",
	"Four kinds of history against a scripted drive: 1-3 walks of fault queues of 0-10 entries (stale entries behind the end, with/without details, clearing, reset; error status, short reply, session error at any read, unknown code, refused clearing), single positions including out-of-range ones, fault object read-outs (exact, trailing, truncated anywhere, refused), and commands. Oracle: the exact list of expected reads, in order, and the model of the queue checked inside the listener. Non-trivial: a non-empty queue, an injected fault, or any single/object/command case.",
	run, 512, 80000, 2500000, 900, 30000};
