// C31: refusals, discarded data and failures are reported readably, and only they.
#include "io.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include <memory>
#include <set>
using namespace pbt;
using namespace eipScanner;
using utils::LogLevel;
namespace pf = eipScanner::vendor::ra::powerFlex525;

namespace {
struct Log { std::vector<std::pair<LogLevel, std::string>> lines; };
struct Recorder : utils::LogAppenderIf { std::shared_ptr<Log> log; explicit Recorder(std::shared_ptr<Log> l) : log(std::move(l)) {} void print(LogLevel v, const std::string& s) override { log->lines.emplace_back(v, s); } };

// Is this text a person can read: valid UTF-8 without control characters?
bool readable(const std::string& s) {
	if (s.empty()) return false;
	for (size_t i = 0; i < s.size();) {
		unsigned char a = (unsigned char)s[i]; size_t n = a < 0x80 ? 1 : a >= 0xC2 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a < 0xF5 ? 4 : 0;
		if (!n || i + n > s.size() || a == 0x7F || (a < 0x20 && a != '\n' && a != '\t')) return false;
		for (size_t k = 1; k < n; ++k) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
		i += n; }
	return true;
}
// Every number a text may be understood to name: 0x.. is hexadecimal, bare digits are decimal or hexadecimal.
void numbers(const std::string& s, std::set<uint64_t>& out) {
	auto word = [](char x) { return isalnum((unsigned char)x) || x == '_'; };
	for (size_t i = 0; i < s.size();) {
		if (!word(s[i])) { ++i; continue; }
		size_t e = i; while (e < s.size() && word(s[e])) ++e;
		std::string t = s.substr(i, e - i); bool negative = i && s[i - 1] == '-' && (i < 2 || !word(s[i - 2])); i = e; if (negative) continue;
		bool prefix = t.size() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X'); std::string d = prefix ? t.substr(2) : t; if (!d.empty() && (d.back() == 'h' || d.back() == 'H')) { d.pop_back(); prefix = true; }
		if (d.empty() || d.size() > 16) continue;
		if (d.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) out.insert(std::stoull(d, nullptr, 16));
		if (!prefix && d.size() < 19 && d.find_first_not_of("0123456789") == std::string::npos) out.insert(std::stoull(d)); }
}

struct World {
	Case& c; std::shared_ptr<Log> log = std::make_shared<Log>(); std::string thrown; bool threw = false;
	explicit World(Case& cc) : c(cc) { utils::Logger::setAppender(std::make_unique<Recorder>(log)); utils::Logger::setLogLevel(c.pick({LogLevel::WARNING, LogLevel::INFO, LogLevel::DEBUG, LogLevel::TRACE})); }
	std::string all() const { std::ostringstream o; for (auto& l : log->lines) o << " [" << int(l.first) << "] " << hexText(l.second); if (threw) o << " thrown: " << hexText(thrown); return o.str(); }
	static std::string hexText(const std::string& s) { std::string r; for (char x : s) if (x >= 32 && x < 127) r += x; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)x); r += b; } return r; }
	// runs one operation; whatever it says must be readable
	template <class F> void act(const char* what, F f) {
		log->lines.clear(); thrown.clear(); threw = false;
		Outcome o = guarded(c, what, [&] { try { f(); } catch (const std::exception& e) { threw = true; thrown = e.what(); throw; } }); (void)o; checkText(what); }
	void checkText(const char* what) {
		for (auto& l : log->lines) { EXPECT(c, readable(l.second), what << ": a message isn't readable text:" << all()); EXPECT(c, int(l.first) >= int(LogLevel::ERROR) && int(l.first) <= int(LogLevel::TRACE), what << ": a message of level " << int(l.first)); }
		if (threw) EXPECT(c, readable(thrown), what << ": the text of the exception isn't readable:" << all()); }
	bool alarm() const { for (auto& l : log->lines) if (l.first == LogLevel::ERROR || l.first == LogLevel::WARNING) return true; return false; }
	std::set<uint64_t> named() const { std::set<uint64_t> s; for (auto& l : log->lines) if (l.first == LogLevel::ERROR || l.first == LogLevel::WARNING) numbers(l.second, s); if (threw) numbers(thrown, s); return s; }
	void fine(const char* what) { EXPECT(c, !threw, what << " failed:" << all()); EXPECT(c, !alarm(), what << " succeeded, but there are warnings:" << all()); }
	// a refusal: all the status words the device gave can be read
	void refused(const char* what, const wire::Reply& r) {
		auto n = named(); EXPECT(c, n.count(r.status), what << " refused with general status " << int(r.status) << ", which isn't reported:" << all());
		for (auto e : r.ext) EXPECT(c, n.count(e), what << " refused with additional status " << e << ", which isn't reported:" << all());
		c.nontrivial(); }
	void noticed(const char* what) { EXPECT(c, alarm(), what << " happened without a warning:" << all()); c.nontrivial(); }
	void noticed(const char* what, std::initializer_list<uint64_t> any) { noticed(what); auto n = named(); bool ok = false; for (auto a : any) ok |= n.count(a) > 0; EXPECT(c, ok, what << ": the warning doesn't say which connection:" << all()); }
};
wire::Reply refusal(Case& c, uint8_t service) { wire::Reply r; r.service = uint8_t(service | 0x80); r.status = dev::errorStatus(c); for (size_t n = c.oneIn(3) ? 0 : 1 + c.below(4); n; --n) r.ext.push_back(c.u16()); if (c.oneIn(3)) r.data = c.bytesUpTo(20); return r; }
std::string printable(Case& c, size_t max) { std::string s(c.below(max + 1), ' '); for (auto& x : s) x = char(32 + c.below(95)); return s; }
Bytes identity(Case& c) { return wire::W().u16(c.u16()).u16(c.u16()).u16(c.u16()).u8(c.u8()).u8(c.u8()).u16(c.u16()).u32(c.u32()).shortStr(printable(c, 40)).b; }
// answers with `good(k)`; the request number `at` (from 0) is refused
template <class G> std::shared_ptr<wire::Reply> script(Case& c, const std::shared_ptr<dev::Device>& d, int at, G good) {
	auto r = std::make_shared<wire::Reply>(); auto k = std::make_shared<int>(0);
	*r = refusal(c, 0);
	d->onRequest = [=](const dev::Exchange& x) { int i = (*k)++; if (i == at) { r->service = uint8_t(x.req.service | 0x80); return *r; } wire::Reply a; a.service = uint8_t(x.req.service | 0x80); a.data = good(i, x); return a; };
	return r; }

void objects(Case& c, World& w) {
	auto d = std::make_shared<dev::Device>(c, c.u32()); bool refuse = c.below(4) > 0; uint16_t inst = c.u16();
	auto verdict = [&](const char* what, const wire::Reply& r) { if (refuse) w.refused(what, r); else w.fine(what); };
	switch (c.below(7)) {
	case 0: { c.label("identity"); Bytes b = identity(c); auto r = script(c, d, refuse ? 0 : -1, [&](int, const dev::Exchange&) { return b; }); c.desc << " identity"; w.act("reading an identity", [&] { IdentityObject o(inst, d); }); verdict("reading an identity", *r); break; }
	case 1: case 2: { c.label("parameter"); bool full = c.coin(), scalable = c.coin(); unsigned size = c.pick({1u, 2u, 4u, 8u}); int replies = full && scalable ? 6 : 2; int at = refuse ? int(c.below(replies)) : -1;
		std::string n = printable(c, 30), u = printable(c, 5), h = printable(c, 60); Bytes v = c.bytes(size); c.desc << " parameter refused at " << at;
		// value, link path size (0), descriptor, type, data size, ...
		auto r = script(c, d, at, [=](int i, const dev::Exchange&) { if (i == 0) return Bytes{uint8_t(size)}; if (i > 1) return Bytes{1, 0}; wire::W q; q.raw(v).u8(0).u16(scalable ? 4 : 0).u8(0xC6).u8(uint8_t(size)); if (full) q.shortStr(n).shortStr(u).shortStr(h).raw(v).raw(v).raw(v).u16(1).u16(1).u16(1).u16(0).zeros(8).u8(0); return q.b; });
		std::unique_ptr<ParameterObject> o; w.act("reading a parameter", [&] { o = std::make_unique<ParameterObject>(inst, full, d); }); verdict("reading a parameter", *r);
		if (o) { bool again = c.coin(); refuse = again; auto q = script(c, d, again ? 0 : -1, [=](int, const dev::Exchange&) { return v; }); c.desc << " refresh" << (again ? " refused" : ""); w.act("refreshing a parameter", [&] { o->updateValue(d); }); verdict("refreshing a parameter", *q); }
		break; }
	case 3: case 4: { c.label("file"); unsigned phase = unsigned(c.below(4)); int at = refuse ? int(std::min(phase, 2u)) : -1; uint8_t state = refuse && phase < 3 ? 2 : c.pick({uint8_t(0), uint8_t(1), uint8_t(2), uint8_t(2), uint8_t(5)}); Bytes content = c.bytes(1 + c.below(30)); if (refuse && !phase) state = 2; refuse = at >= 0; c.desc << " file in state " << int(state) << " refused at " << at;
		// replies: state, start, packets of 10 bytes each; the transfer may be refused later than at its first packet
		int packets = int((content.size() + 9) / 10); if (at == 2) at += int(c.below(size_t(packets))); if (state != 2) at = -1;
		auto r = script(c, d, at, [=](int i, const dev::Exchange&) -> Bytes { if (i == 0) return {state}; if (i == 1) return wire::W().u32(uint32_t(content.size())).u8(10).b; int k = i - 2; Bytes part(content.begin() + 10 * k, content.begin() + std::min<long>(10 * k + 10, long(content.size()))); wire::W q; q.u8(uint8_t(k)).u8(packets == 1 ? 4 : k == 0 ? 0 : k == packets - 1 ? 2 : 1).raw(part); if (k == packets - 1) q.u16(0); return q.b; });
		std::unique_ptr<FileObject> o; w.act("opening a file object", [&] { o = std::make_unique<FileObject>(inst, d); });
		if (at == 0) { w.refused("opening a file object", *r); break; }
		if (state == 5) { EXPECT(c, o != nullptr, "file object:" << w.all()); break; } w.fine("opening a file object");
		unsigned calls = 0, status = 999; auto handler = [&](cip::GeneralStatusCodes s, const Bytes&) { ++calls; status = s; };
		if (state != 2) { w.act("uploading a file that isn't there", [&] { o->beginUpload(d, handler); }); if (!w.threw && !calls) w.noticed("an upload that can't begin"); w.act("transferring what isn't there", [&] { o->handleTransfers(d); }); if (!w.threw) w.noticed("a transfer of nothing"); c.label("file empty or missing"); break; }
		w.act("beginning an upload", [&] { o->beginUpload(d, handler); }); if (at == 1) { w.refused("beginning an upload", *r); break; } w.fine("beginning an upload");
		bool more = true; for (int k = 0; more && k < 10; ++k) { more = false; w.act("a transfer", [&] { more = o->handleTransfers(d); }); if (k + 2 == at) { w.refused("a transfer", *r); break; } w.fine("a transfer"); }
		break; }
	case 5: { c.label("fault object"); auto s = printable(c, 0) + std::string(16, 'f'); Bytes b = wire::W().u16(c.u16()).u8(c.u8()).u8(c.u8()).raw(Bytes(s.begin(), s.end())).u32(c.u32()).u32(c.u32()).u16(c.u16()).b; auto r = script(c, d, refuse ? 0 : -1, [=](int, const dev::Exchange&) { return b; });
		if (c.coin()) { c.desc << " fault object"; w.act("reading a fault object", [&] { pf::DPIFaultObject o(inst, d); }); verdict("reading a fault object", *r); }
		else { c.desc << " fault command"; pf::DPIFaultManager m(true, true, true); w.act("a fault command", [&] { m.writeCommand(pf::DPIFaultManagerCommands(1 + c.below(3)), d); }); verdict("a fault command", *r); }
		break; }
	default: { c.label("fault queue"); bool details = c.coin(), clear = c.coin(); unsigned len = unsigned(c.below(4)); int per = details ? 4 : 1, total = int(len) * per + 1 + (clear && len ? 1 : 0); int at = refuse ? int(c.below(size_t(total))) : -1; c.desc << " queue of " << len << " refused at " << at;
		auto r = script(c, d, at, [=](int i, const dev::Exchange& x) -> Bytes { if (x.req.service == 0x10) return {}; bool code = i % per == 0; return wire::W().u16(code ? (i / per < int(len) ? 4 : 0) : 77).b; });
		pf::DPIFaultManager m(clear, false, details); unsigned got = 0; m.setNewFaultListener([&](const pf::DPIFaultParameter&) { ++got; }); w.act("reading the fault queue", [&] { m.handleFaultParameters(d); }); verdict("reading the fault queue", *r); break; }
	}
}

void connections(Case& c, World& w) {
	io::World v(c); v.n.wallSeed = 0; unsigned steps = 1 + unsigned(c.below(8)); auto plain = [](io::Conn& k) { k.o2tApi = k.t2oApi = 0xffffffffu; };

	for (unsigned i = 0; i < steps; ++i) {
		auto live = v.producer();
		switch (c.below(9)) {
		case 0: { // accepted
			w.log->lines.clear(); v.open(true, [&](io::Conn& k) { plain(k); if (c.oneIn(4)) k.o2t.size = uint32_t(1 + c.below(400)); }); w.threw = false; w.checkText("an accepted open"); w.fine("an accepted open"); break; }
		case 1: case 2: { // refused
			io::Conn k; k.target = unsigned(c.below(v.targets.size())); k.p = v.params(k, true); auto r = std::make_shared<wire::Reply>(refusal(c, 0)); v.targets[k.target]->onRequest = [r](const dev::Exchange& x) { r->service = uint8_t(x.req.service | 0x80); return *r; };
			c.desc << " refused open"; c.label("refused open"); w.act("an open", [&] { v.call(k); }); w.refused("an open", *r); break; }
		case 3: { if (!live) break; // close, perhaps refused
			bool refuse = c.below(3) > 0; auto r = std::make_shared<wire::Reply>(refusal(c, 0)); if (!refuse) { r->status = 0; r->data = Bytes(10); r->ext.clear(); } v.targets[live->target]->onRequest = [r](const dev::Exchange& x) { r->service = uint8_t(x.req.service | 0x80); return *r; };
			c.desc << (refuse ? " refused close" : " close"); c.label("close"); live->held.reset(); w.act("a close", [&] { v.m->forwardClose(v.targets[live->target], live->w); }); live->open = false; if (refuse) w.refused("a close", *r); else w.fine("a close");
			if (c.coin()) { w.act("closing again", [&] { v.m->forwardClose(v.targets[live->target], live->w); }); c.desc << " twice"; w.noticed("closing a connection that is closed already"); }
			break; }
		case 4: case 5: { if (v.conns.empty()) break; // received data that can't be used
			io::Conn& k = *v.conns[c.below(v.conns.size())]; Bytes good = io::World::datagram(k.t2oId, c.u32(), v.t2oPayload(k, c.u16(), c.u32(), c.bytes(k.t2o.size > 1400 ? 1400 : k.t2o.size))), b; bool names = false; const char* what = "";
			size_t which = c.below(6); if (!k.open) which = 3;
			switch (which) {
			case 0: what = "a datagram cut short"; b = good; b.resize(c.below(good.size())); if (b.size() < 2 || (good.size() > 60000)) b = {1}; break;
			case 1: what = "a datagram without its data item"; b = wire::packItems({{0x8002, wire::W().u32(k.t2oId).u32(1).b}}); if (c.coin()) b = wire::packItems({}); break;
			case 2: what = "a datagram with a short address item"; b = wire::packItems({{0x8002, c.bytes(c.below(4))}, {0x00B1, c.bytes(8)}}); break;
			case 3: { what = "data for an unknown connection"; uint32_t id; do id = c.u32(); while (v.usedT2O.count(id)); v.usedT2O.insert(id); if (!k.open && c.coin()) { bool shared = false; for (auto& q : v.conns) shared |= q->open && q->t2oId == k.t2oId; if (!shared) id = k.t2oId; } b = io::World::datagram(id, 1, c.bytesUpTo(20)); v.arrive(0, b, k.target); c.desc << " data for unknown " << id; if (!v.n.boundCount(2222)) { break; } w.act("handling", [&] { v.m->handleConnections(io::milliseconds(0)); }); w.noticed(what, {id}); c.label("data for an unknown connection"); b.clear(); break; }
			case 4: { what = "data of the wrong size"; if (k.t2o.variable) { if (!k.counted() && !k.p.t2oRealTimeFormat) break; size_t need = (k.counted() ? 2 : 0) + (k.p.t2oRealTimeFormat ? 4 : 0); b = io::World::datagram(k.t2oId, 1, c.bytes(c.below(need))); what = "data without its headers"; } else { size_t s = std::min<size_t>(k.t2o.size, 1000); s = c.coin() || !s ? s + 1 + c.below(20) : c.below(s); if (s == k.t2o.size) ++s; b = io::World::datagram(k.t2oId, 1, v.t2oPayload(k, 1, 1, c.bytes(s))); } names = true; break; }
			default: { what = "a datagram with foreign items"; b = wire::packItems({{c.pick({uint16_t(0), uint16_t(0x8000), uint16_t(0xB2)}), wire::W().u32(k.t2oId).u32(1).b}, {0x00B1, c.bytes(8)}}); } }
			if (b.empty() || !v.n.boundCount(2222)) break;
			c.desc << ' ' << what; c.label(what); size_t was = k.rx.size(); v.arrive(0, b, k.target); w.act("handling", [&] { v.m->handleConnections(io::milliseconds(0)); });
			if (k.rx.size() != was) break; // that is C11's concern
			if (names) w.noticed(what, {k.t2oId, k.o2tId, k.serial}); else w.noticed(what); break; }
		case 6: { if (!live) break; // good data
			if (live->t2o.size > 1400) break; bool shared = false; for (auto& q : v.conns) shared |= q.get() != live && q->t2oId == live->t2oId; if (shared) break;
			v.arrive(0, io::World::datagram(live->t2oId, c.u32(), v.t2oPayload(*live, c.u16(), c.u32(), c.bytes(live->t2o.size))), live->target); c.desc << " data"; w.act("handling", [&] { v.m->handleConnections(io::milliseconds(0)); }); w.fine("handling good data"); break; }
		case 7: { // a connection that produces: of the right size, of a wrong size, and failing
			size_t kind = c.below(3); bool up = v.conns.size() < 8; if (!up) break; w.log->lines.clear(); io::Conn& k = v.open(true, [&](io::Conn& q) { plain(q); q.o2tApi = 10000; q.o2t.variable = kind == 1 ? false : q.o2t.variable; q.o2t.size = uint32_t(1 + c.below(200)); }); auto p = v.lock(k); if (!p) break; size_t s = k.o2t.size; if (kind == 1) s = s + 1 + c.below(20);
			p->setDataToSend(c.bytes(s)); if (kind == 2) v.n.fault = [&](const char* call, sim::Sock*) { return std::string(call) == "send" ? c.pick({101, 111, 113}) : 0; };
			v.n.advance(20000); size_t sent = v.n.sent.size(); c.desc << (kind == 0 ? " production" : kind == 1 ? " output of the wrong size" : " failing send"); c.label(kind == 0 ? "production" : kind == 1 ? "output of the wrong size" : "failing send"); w.act("handling", [&] { v.m->handleConnections(io::milliseconds(0)); }); v.n.fault = nullptr;
			if (kind == 0) w.fine("producing"); else { EXPECT(c, !w.threw && v.n.sent.size() == sent, "something was sent:" << w.all()); w.noticed(kind == 1 ? "not sending output of the wrong size" : "a send that fails", {k.o2tId, k.t2oId, k.serial}); }
			v.targets[k.target]->onRequest = [](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); return r; }; p.reset(); k.held.reset(); v.m->forwardClose(v.targets[k.target], k.w); k.open = false; break; }
		default: { if (v.conns.size() > 7) break; // a timeout
			w.log->lines.clear(); io::Conn& k = v.open(true, [&](io::Conn& q) { plain(q); q.t2oApi = 1000; q.p.connectionTimeoutMultiplier = 0; }); v.n.advance(10000); c.desc << " timeout"; c.label("timeout"); w.act("handling", [&] { v.m->handleConnections(io::milliseconds(0)); }); k.open = false; EXPECT(c, k.closes == 1, "the connection timed out but wasn't closed:" << w.all()); w.noticed("a connection timeout", {k.o2tId, k.t2oId, k.serial}); break; }
		}
		if (!v.conns.empty()) v.checkOpen();
	}
}

// A real session whose peer says what it's told
struct Peer : sim::TcpPeer { std::vector<Bytes> replies; size_t k = 0; void onData(int fd, const Bytes& d) override { if (d.size() >= 24 && d[0] == 0x66) return; if (k < replies.size()) sim::net->tcpSend(fd, 10, replies[k++]); } };
void session(Case& c, World& w) {
	sim::Scope sc; auto& n = sc.n; auto p = std::make_shared<Peer>(); n.onConnect = [](uint32_t, uint16_t) { return sim::ConnectPlan{}; }; n.onAccepted = [p](int) { return p; };
	unsigned at = unsigned(c.below(3)); uint32_t status = c.oneIn(3) ? uint32_t(1 + c.below(255)) : c.u32() | 1, handle = c.u32() | 1; Bytes reg = wire::W().u16(1).u16(0).b, rr = wire::rrReply([&] { wire::Reply r; r.service = 0x8E; r.data = {1}; return r; }());
	p->replies = {wire::encaps(0x65, handle, at == 0 ? status : 0, reg), wire::encaps(0x6F, handle, at == 1 ? status : 0, at == 1 && c.coin() ? Bytes() : rr)}; std::unique_ptr<SessionInfo> holder; SessionInfoIf::SPtr s; c.desc << " session, status " << status << " at " << at; c.label("session");
	w.act("opening a session", [&] { s = std::make_shared<SessionInfo>("10.0.0.1", 44818, std::chrono::milliseconds(500)); });
	if (at == 0) { EXPECT(c, w.threw && w.named().count(status), "the registration failed with status " << status << ", which isn't reported:" << w.all()); c.nontrivial(); return; }
	w.fine("opening a session"); MessageRouter m; w.act("a request", [&] { m.sendRequest(s, cip::ServiceCodes::GET_ATTRIBUTE_SINGLE, cip::EPath(1, 1, 1), {}); });
	if (at == 1) { EXPECT(c, w.threw && w.named().count(status), "a request failed with encapsulation status " << status << ", which isn't reported:" << w.all()); c.nontrivial(); } else w.fine("a request");
	bool fail = c.coin(); if (fail) n.fault = [](const char* call, sim::Sock*) { return std::string(call) == "send" ? 32 : 0; };
	w.act("closing a session", [&] { s.reset(); }); if (fail) { EXPECT(c, !w.threw, "destructor threw"); w.noticed("a session that can't be ended"); c.label("session that can't be ended"); } else w.fine("closing a session");
}
void discovery(Case& c, World& w) {
	sim::Scope sc; auto& n = sc.n; bool any = false; unsigned k = unsigned(c.below(4)); std::vector<Bytes> answers; c.label("discovery"); c.desc << " discovery";
	for (unsigned i = 0; i < k; ++i) { Bytes item = wire::W().u16(1).u16be(2).u16be(44818).u32be(c.u32()).zeros(8).raw(identity(c)).u8(0).b; Bytes b = wire::encaps(0x63, 0, 0, wire::packItems({{0x0C, item}})); if (c.oneIn(3)) { size_t keep = c.below(b.size() - 2); b.resize(c.oneIn(3) ? std::min<size_t>(keep, 25) : keep); if (b.size() < 1) b = {0}; if (b.size() == 26) b.pop_back(); any = true; c.desc << " malformed"; } answers.push_back(b); }
	n.onSend = [&](const sim::Sent& s) { for (auto& a : answers) { sim::Datagram d; d.data = a; d.srcIp = sim::ip(10, 0, 0, 3); d.srcPort = 44818; int fd = s.fd; sim::net->after(1000, [fd, d] { sim::net->deliverFd(fd, d); }); } };
	std::vector<IdentityItem> got; w.act("discovery", [&] { DiscoveryManager m("10.0.0.255", 44818, std::chrono::milliseconds(100)); got = m.discover(); });
	if (any) { EXPECT(c, !w.threw, "discovery failed:" << w.all()); w.noticed("a malformed discovery answer"); c.label("malformed discovery answer"); } else { w.fine("discovery"); expectEq(c, got.size(), size_t(k), "devices found"); }
}
void run(Case& c) {
	World w(c);
	for (unsigned n = 1 + unsigned(c.below(4)); n; --n) switch (c.below(8)) { case 0: case 1: case 2: objects(c, w); break; case 3: case 4: case 5: connections(c, w); break; case 6: session(c, w); break; default: discovery(c, w); }
}
}
extern const Property pbt::theProperty = {"C31",
	"Histories of 1-4 blocks of operations under a recording log appender at a level from WARNING to TRACE: objects read, refreshed, uploaded and commanded with a device refusing any one of the requests (any general status, 0-4 additional statuses); connections opened, closed, refused, closed twice, timed out, producing (also at a wrong size or into a failing socket) and given good, cut, foreign, short, wrongly sized and unknown data; real sessions with encapsulation errors and failing ends; discoveries with malformed answers. Oracle: each status word of a refusal can be read as a number in a message at WARNING or ERROR or in the exception; whatever the library swallows left a message at WARNING or ERROR (naming the connection where there is one); successful operations leave none; every message and exception text is valid, printable text. Non-trivial: a refusal or something swallowed.",
	run, 512, 60000, 1200000, 1400, 30000};
