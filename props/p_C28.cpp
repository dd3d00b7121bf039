// C28: running out of memory ends one operation, nothing else.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include <sanitizer/allocator_interface.h>
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <memory>
#include <new>
#include <set>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;

// Allocations made by the code under test while `armed` are counted; the chosen one (and, when `sticky`,
// all that follow in the same operation) fails. What the simulated network and the listeners need is exempt.
static int64_t liveBytes = 0; static bool armed = false, sticky = false; static int64_t counted = 0, failAt = -1; static unsigned exempt = 0, failures = 0;
struct Exempt { Exempt() { ++exempt; } ~Exempt() { --exempt; } };
static bool refuse() { if (!armed || exempt || sim::inside) return false; int64_t i = counted++; if (failAt < 0 || (sticky ? i < failAt : i != failAt)) return false; ++failures; return true; }
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); liveBytes += int64_t(n ? n : 1); return p; }
static void give(void* p) { if (!p) return; liveBytes -= int64_t(__sanitizer_get_allocated_size(p)); free(p); }
void* operator new(size_t n) { if (refuse()) throw std::bad_alloc(); return take(n); }
void* operator new[](size_t n) { if (refuse()) throw std::bad_alloc(); return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

namespace {
enum Kind { REQUEST, SESSION, DROP, IDENTITY, PARAMETER, REFRESH, FILE_, BEGIN, STEP, FAULTS, OPEN, CLOSE, TRAFFIC, TICK, SILENCE, LISTEN, DISCOVER, MANAGER, KINDS };
const char* kindName[] = {"request", "session", "session end", "identity", "parameter", "refresh", "file object", "begin upload", "transfer", "faults", "open", "close", "traffic", "production", "silence", "listeners", "discovery", "manager end"};
struct Op { unsigned kind = 0, a = 0, b = 0; bool hurt = false, sticky = false; uint64_t at = 0; Bytes data; };
struct Appender : utils::LogAppenderIf { void print(utils::LogLevel, const std::string& m) override { Exempt e; sum += m.size(); errno = 5; } static size_t sum; };
size_t Appender::sum = 0;

struct World {
	Case& c; sim::Scope sc; sim::Net& n; std::string where; uint64_t ids = 0; uint32_t lastT2O = 0; unsigned level = 0; uint16_t value = 500;
	std::shared_ptr<SessionInfo> s; MessageRouter::SPtr mr; std::unique_ptr<ConnectionManager> cm; std::unique_ptr<DiscoveryManager> dm; std::unique_ptr<vendor::ra::powerFlex525::DPIFaultManager> fm; std::unique_ptr<ParameterObject> param; uint16_t paramWas = 0;
	std::unique_ptr<FileObject> file; struct Upload { unsigned calls = 0; int status = -1; Bytes got; bool open = false; } up; Bytes content; std::vector<std::string> faults;
	struct Conn { IOConnection::WPtr w; uint32_t t2o, o2t; std::vector<uint32_t> got; unsigned closed = 0; uint32_t seq = 0; Bytes out; bool listening = false; };
	std::vector<std::unique_ptr<Conn>> conns; uint32_t stamp = 1; size_t seen = 0;

	struct Peer : sim::TcpPeer { World* o; Bytes in; explicit Peer(World* b) : o(b) {}
		void onData(int fd, const Bytes& d) override { in.insert(in.end(), d.begin(), d.end());
			while (in.size() >= 24) { size_t len = 24 + in[2] + 256u * in[3]; if (in.size() < len) break; Bytes one(in.begin(), in.begin() + long(len)); in.erase(in.begin(), in.begin() + long(len)); o->answer(fd, one); } } };
	World(Case& cc, unsigned fileSize) : c(cc), n(sc.n) {
		for (unsigned i = 0; i < fileSize; ++i) content.push_back(uint8_t(i * 5 + 1));
		mr = std::make_shared<MessageRouter>(); cm = std::make_unique<ConnectionManager>(); dm = std::make_unique<DiscoveryManager>("10.0.0.255", 44818, milliseconds(20));
		fm = std::make_unique<vendor::ra::powerFlex525::DPIFaultManager>(true, false, true);
		fm->setNewFaultListener([this](const vendor::ra::powerFlex525::DPIFaultParameter& f) { Exempt e; faults.push_back(std::to_string(f.getFaultDetails().faultNumber) + "/" + std::to_string(f.getFaultDetails().faultCode) + "/" + f.getFullInformation().faultDescription.faultText); });
		n.onConnect = [](uint32_t, uint16_t) { return sim::ConnectPlan{}; }; n.onAccepted = [this](int) { return std::make_shared<Peer>(this); };
		n.onSend = [this](const sim::Sent& d) { if (d.port != 44818) return; for (unsigned i = 0; i < 3; ++i) { Bytes item = wire::W().u16(1).u16be(2).u16be(44818).u32be(sim::ip(10, 0, 0, uint8_t(10 + i))).raw(Bytes(8)).u16(1).u16(2).u16(100 + i).u8(1).u8(2).u16(0).u32(9).shortStr("a device with a long name").u8(3).b; sim::Datagram g; g.srcIp = sim::ip(10, 0, 0, uint8_t(10 + i)); g.srcPort = 44818; g.data = wire::encaps(0x63, 0, 0, wire::packItems({{0x0C, item}})); n.deliverFd(d.fd, g); } }; }

	// ---- the device
	wire::Reply good(const wire::Request& q) {
		wire::Reply r; r.service = uint8_t(q.service | 0x80); unsigned cls = q.path.id[0], in = q.path.n > 1 ? q.path.id[1] : 0, at = q.path.n > 2 ? q.path.id[2] : 0;
		if (cls == 1) r.data = wire::W().u16(0x1234).u16(12).u16(77).u8(3).u8(4).u16(0x30).u32(0xCAFE0001).shortStr("a pump drive with a long name").b;
		else if (cls == 0x64) { r.data = q.data; if (in & 1) { r.status = 0x1F; r.ext = {0x1234, 0x5678}; } }
		else if (cls == 0x0F && in == 20) {
			if (q.service == 1) r.data = wire::W().u16(value).u8(4).u32(0).u16(4 | 16).u8(0xC7).u8(2).shortStr("speed of the main pump").shortStr("Hz").shortStr("help text of some length").u16(1).u16(60000).u16(300).u16(2).u16(1).u16(1).u16(0).zeros(8).u8(1).b;
			else switch (at) { case 1: r.data = wire::W().u16(value).b; break; case 6: r.data = {2}; break; case 13: r.data = wire::W().u16(2).b; break; case 16: r.data = wire::W().u16(0).b; break; default: r.data = wire::W().u16(1).b; } }
		else if (cls == 0x0F) { unsigned pos = in >= 7 && in <= 9 ? in - 6 : in >= 604 && in <= 610 ? in - 600 : 0; r.data = wire::W().u16(pos ? (pos == 1 ? 4 : pos == 2 ? 13 : pos == 3 ? 73 : 0) : in).b; }
		else if (cls == 0x37) {
			if (q.service == 0x0E) r.data = {2};
			else if (q.service == 0x4B) r.data = wire::W().u32(uint32_t(content.size())).u8(40).b;
			else { unsigned num = q.data.empty() ? 0 : q.data[0]; size_t from = std::min<size_t>(num * 40, content.size()), to = std::min<size_t>(from + 40, content.size()); bool last = from + 40 >= content.size(); r.data = wire::W().u8(uint8_t(num)).u8(last ? (num ? 2 : 4) : num ? 1 : 0).raw(Bytes(content.begin() + long(from), content.begin() + long(to))).b; if (last) r.data.insert(r.data.end(), 2, 0); } }
		else if (cls == 6 && (q.service == 0x54 || q.service == 0x5B)) { ++ids; lastT2O = uint32_t(0x7000 + ids); r.data = wire::W().u32(0x5000 + ids).u32(lastT2O).u16(5).u16(1).u32(2).u32(10000).u32(10000).u8(0).u8(0).b; if (ids & 1) r.items.push_back({0x8000, wire::sockaddr(0, 2222)}); }
		return r; }
	void answer(int fd, const Bytes& frame) {
		wire::Encaps e; if (!wire::parse(frame, e)) abortCase("malformed frame sent: " + hex(frame)); if (e.cmd == 0x66) return;
		Bytes payload; if (e.cmd == 0x65) payload = wire::W().u16(1).u16(0).b;
		else { wire::R r(e.data); r.u32(); r.u16(); Bytes rest = r.rest(); std::vector<wire::Item> it; wire::Request q; if (e.cmd != 0x6F || !wire::parseItems(rest, it) || it.size() < 2 || !wire::parseRequest(it[1].data, q)) abortCase("malformed request sent: " + hex(frame)); payload = wire::rrReply(good(q)); }
		n.tcpSend(fd, 0, wire::encaps(e.cmd, 0x12345678, 0, payload)); }

	// ---- operations
	size_t alive() const { size_t k = 0; for (auto& x : conns) k += !x->w.expired(); return k; }
	void deliver(Conn& k) { Exempt e; sim::Datagram g; g.srcIp = sim::ip(192, 168, 100, 201); g.srcPort = 2222; g.data = wire::packItems({{0x8002, wire::W().u32(k.t2o).u32(stamp).b}, {0xB1, wire::W().u16(uint16_t(stamp)).u32(stamp).raw(Bytes(60, 9)).b}}); ++stamp; n.deliver(2222, g); }
	void listen(Conn& k, IOConnection& io) {
		Conn* p = &k; unsigned pad = stamp; std::string large(40, 'x'); // more than fits without an allocation
		io.setReceiveDataListener([this, p, large](uint32_t, uint16_t, const Bytes& b) { Exempt e; if (b.size() != 64 || large.size() != 40) abortCase("a receive listener got " + std::to_string(b.size()) + " bytes instead of 64"); p->got.push_back(wire::R(b).u32()); });
		io.setCloseListener([p, large] { if (large.size() != 40) abortCase("a listener lost what it captured"); ++p->closed; }); io.setDataToSend(Bytes(64, uint8_t(pad))); k.out = Bytes(64, uint8_t(pad)); k.listening = true; }
	void operate(const Op& o) {
		switch (o.kind) {
		case REQUEST: { if (!s) break; auto r = o.a & 8 ? Yaskawa_MessageRouter().sendRequest(s, 0x0E, cip::Yaskawa_EPath(0x64, uint8_t(o.b), 7), o.data) : mr->sendRequest(s, 0x0E, cip::EPath(0x64, uint16_t(o.b), 7), o.data); Exempt e; EXPECT(c, r.getData() == o.data && r.getGeneralStatusCode() == (o.b & 1 ? 0x1F : 0), "wrong reply" << where); break; }
		case SESSION: { Exempt e; armed = false; s.reset(); armed = true; } s = std::make_shared<SessionInfo>("192.168.100.201", 44818, milliseconds(30)); break;
		case DROP: s.reset(); break;
		case IDENTITY: { if (!s) break; IdentityObject i(1, s, mr); Exempt e; EXPECT(c, i.getSerialNumber() == 0xCAFE0001 && i.getProductName() == "a pump drive with a long name", "wrong identity" << where); break; }
		case PARAMETER: { if (!s) break; auto p = std::make_unique<ParameterObject>(20, true, s, mr); param = std::move(p); paramWas = value; checkParam(); break; }
		case REFRESH: { if (!s || !param) break; param->updateValue(s); paramWas = value; checkParam(); break; }
		case FILE_: { if (!s) break; auto f = std::make_unique<FileObject>(1, s, mr); file = std::move(f); up = Upload(); break; }
		case BEGIN: { if (!s || !file || up.open) break; std::string large(40, 'y'); { Exempt e; up = Upload(); } file->beginUpload(s, [this, large](cip::GeneralStatusCodes st, const Bytes& b) { Exempt e; ++up.calls; up.status = int(st); up.got = b; }); up.open = up.calls == 0; break; }
		case STEP: { if (!s || !file) break; for (unsigned i = 0; i < 1 + o.a % 3; ++i) if (!file->handleTransfers(s)) up.open = false; break; }
		case FAULTS: { if (!s) break; { Exempt e; faults.clear(); } fm->handleFaultParameters(s, mr); break; }
		case OPEN: { if (!s) break; cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, 1}; p.o2tRPI = p.t2oRPI = 10000; p.transportTypeTrigger = 1; bool large = o.a & 1; p.t2oNetworkConnectionParams = p.o2tNetworkConnectionParams = large ? 0x42000040 : 0x4240; p.connectionTimeoutMultiplier = 2;
			auto w = cm->forwardOpen(s, p, large); auto k = w.lock(); if (!k) break; { Exempt e; auto x = std::make_unique<Conn>(); x->w = w; x->t2o = lastT2O; x->o2t = lastT2O - 0x2000; conns.push_back(std::move(x)); } listen(*conns.back(), *k); break; }
		case CLOSE: if (s && !conns.empty()) cm->forwardClose(s, conns[o.a % conns.size()]->w); break;
		case TRAFFIC: for (auto& k : conns) for (unsigned i = 0; i < 1 + o.b % 3; ++i) deliver(*k); cm->handleConnections(milliseconds(0)); break;
		case TICK: n.advance(10000); cm->handleConnections(milliseconds(o.a % 3)); break;
		case SILENCE: n.advance(170000); cm->handleConnections(milliseconds(0)); break;
		case LISTEN: for (auto& k : conns) if (auto io = k->w.lock()) listen(*k, *io); break;
		case DISCOVER: { auto l = dm->discover(); Exempt e; bool ok = l.size() == 3; for (unsigned i = 0; i < 3 && ok; ++i) ok = l[i].identityObject.getProductCode() == 100 + i && l[i].identityObject.getProductName() == "a device with a long name"; EXPECT(c, ok, "wrong discovery result" << where); break; }
		case MANAGER: cm.reset(); break;
		default:; } }
	void checkParam() { Exempt e; uint16_t v = param->getActualValue<uint16_t>(); EXPECT(c, v == paramWas && param->getName() == "speed of the main pump" && param->getMaxValue<uint16_t>() == 60000, "wrong parameter" << where << ": " << v << " instead of " << paramWas); }
	int64_t apply(const Op& o, bool dry) {
		{ Exempt e; where = std::string(" in ") + kindName[o.kind]; if (o.kind == REFRESH) value += 3; }
		counted = 0; failAt = !dry && o.hurt ? int64_t(o.at) : -1; sticky = o.sticky; unsigned f0 = failures; bool threw = false; std::string text; armed = true;
		try { operate(o); armed = false; }
		catch (const Failure&) { armed = false; throw; }
		catch (const std::bad_alloc&) { armed = false; threw = true; if (failures == f0) c.fail("std::bad_alloc though memory was available" + where); }
		catch (const std::runtime_error& e) { armed = false; threw = true; text = e.what(); if (failures == f0) c.fail("unexpected error" + where + ": " + text); }
		catch (const std::exception& e) { armed = false; c.fail("running out of memory" + where + " ends with neither std::bad_alloc nor std::runtime_error: " + e.what()); }
		int64_t used = counted; failAt = -1;
		if (failures > f0) { where += threw ? " (which ran out of memory and failed)" : " (which ran out of memory and succeeded)"; settle(o, threw); }
		else { if (o.kind == MANAGER) settle(o, false); if (o.kind == CLOSE && s && !conns.empty()) conns.erase(conns.begin() + long(o.a % conns.size())); if (o.kind == SILENCE) conns.erase(std::remove_if(conns.begin(), conns.end(), [](auto& k) { return k->closed == 1; }), conns.end()); }
		return used; }

	// ---- after a failure: nothing is lost, everything works
	void must(const char* what, const std::function<void()>& f) { try { f(); } catch (const Failure&) { throw; } catch (const std::exception& e) { c.fail(std::string(what) + " fails after" + where + ": " + e.what()); } }
	void produced(bool all) { // what was sent since: each connection's data under its id with a newer number
		std::map<uint32_t, unsigned> by; for (; seen < n.sent.size(); ++seen) { auto& d = n.sent[seen]; if (d.port != 2222) continue; std::vector<wire::Item> it; if (!wire::parseItems(d.data, it) || it.size() != 2 || it[0].data.size() != 8) c.fail("malformed cyclic data sent after" + where + ": " + hex(d.data)); wire::R r(it[0].data); uint32_t id = r.u32(), seq = r.u32(); Conn* k = nullptr; for (auto& x : conns) if (x->o2t == id) k = x.get(); if (!k) continue;
			EXPECT(c, int32_t(seq - k->seq) > 0, "sequence number " << seq << " sent after " << k->seq << " after" << where); k->seq = seq; ++by[id]; if (all && k->listening) EXPECT(c, it[1].data.size() == 66 && Bytes(it[1].data.begin() + 2, it[1].data.end()) == k->out, "wrong output data after" << where); }
		if (all) for (auto& x : conns) if (!x->w.expired() && x->listening) EXPECT(c, by[x->o2t] == 1, "a connection produced " << by[x->o2t] << " datagrams when one was due, after" << where); }
	void settle(const Op& o, bool threw) {
		bool closing = o.kind == CLOSE || o.kind == MANAGER || o.kind == SILENCE;
		if (o.kind == SILENCE && cm) must("handling connections", [&] { cm->handleConnections(milliseconds(0)); });
		// a connection that was opened but whose listeners could not be set yet
		if (cm) for (auto& k : conns) if (auto io = k->w.lock()) { if (!k->listening || o.kind == LISTEN || o.kind == OPEN) { k->got.clear(); listen(*k, *io); } }
		for (size_t i = 0; i < conns.size(); ++i) { auto& k = *conns[i]; EXPECT(c, k.closed <= 1, "a close listener was called " << k.closed << " times after" << where); if (k.closed) EXPECT(c, k.w.expired(), "a connection reported closed is still alive after" << where);
			if (k.w.expired() && cm) EXPECT(c, k.closed || (o.kind == CLOSE && i == o.a % conns.size()), "a connection is gone without notice after" << where);
			if (k.closed && !closing) c.fail("a connection was closed" + where); }
		if (cm) { std::set<IOConnection*> held; for (auto& k : conns) if (auto io = k->w.lock()) held.insert(io.get()); if (o.kind != OPEN || !threw) EXPECT(c, cm->hasOpenConnections() == !held.empty(), "open connections reported: " << cm->hasOpenConnections() << ", known: " << held.size() << " after" << where); }
		conns.erase(std::remove_if(conns.begin(), conns.end(), [](auto& k) { return k->w.expired(); }), conns.end());
		// sockets
		size_t tcp = 0, udp = 0, bound = 0; for (auto& k : n.socks) if (k.second.open) ++(k.second.type != SOCK_DGRAM ? tcp : k.second.bound ? bound : udp);
		expectEq(c, tcp, s ? size_t(1) : size_t(0), "open TCP sockets after" + where); if (o.kind != OPEN || !threw) EXPECT(c, udp == conns.size(), udp << " sockets are open for " << conns.size() << " connections after" << where); EXPECT(c, bound <= 1, bound << " receiving sockets are open after" << where);
		if (!cm) { EXPECT(c, udp + bound == 0, "sockets outlived their connection manager after" << where); cm = std::make_unique<ConnectionManager>(); conns.clear(); }
		// the session answers right or not at all; a new one always works
		Bytes probe{1, 2, 3, uint8_t(stamp)}; auto ask = [&] { auto r = mr->sendRequest(s, 0x0E, cip::EPath(0x64, 2, 7), probe); EXPECT(c, r.getData() == probe, "a request got another request's reply after" << where); };
		if (s) { bool ok = true; try { ask(); } catch (const Failure&) { throw; } catch (const std::runtime_error&) { ok = false; } if (!threw && !ok) c.label("session given up although the operation succeeded"); if (!ok) s.reset(); }
		if (!s) { must("opening a session", [&] { s = std::make_shared<SessionInfo>("192.168.100.201", 44818, milliseconds(30)); }); must("a request", ask); }
		// connections: input, output, not closed
		must("handling connections", [&] { cm->handleConnections(milliseconds(0)); }); produced(false);
		for (auto& k : conns) { for (size_t i = 1; i < k->got.size(); ++i) EXPECT(c, k->got[i] > k->got[i - 1], "cyclic data was handed over twice or out of order after" << where); k->got.clear(); }
		std::vector<uint32_t> want; for (auto& k : conns) { want.push_back(stamp); deliver(*k); } n.advance(10000); must("handling connections", [&] { cm->handleConnections(milliseconds(0)); });
		for (size_t i = 0; i < conns.size(); ++i) { EXPECT(c, !conns[i]->w.expired() && !conns[i]->closed, "a connection was closed after" << where); EXPECT(c, conns[i]->got == std::vector<uint32_t>{want[i]}, "cyclic data arrived " << conns[i]->got.size() << " times instead of once after" << where); conns[i]->got.clear(); } produced(true);
		// objects
		if (param && (o.kind == REFRESH || o.kind == PARAMETER)) { uint16_t v = param->getActualValue<uint16_t>(); EXPECT(c, v == paramWas || v == value, "a parameter has value " << v << ", which it never had, after" << where); must("refreshing a parameter", [&] { param->updateValue(s); }); paramWas = value; checkParam(); }
		if (o.kind == FILE_ || o.kind == BEGIN || o.kind == STEP) {
			if (file && (up.open || o.kind == BEGIN)) { bool more = true; unsigned k = 0; while (more && k++ < 60) must("a transfer", [&] { more = file->handleTransfers(s); }); EXPECT(c, k < 60, "an upload does not end after" << where);
				if (o.kind == STEP) EXPECT(c, up.calls == 1, "the upload handler was called " << up.calls << " times after" << where); else EXPECT(c, up.calls <= 1, "the upload handler was called " << up.calls << " times after" << where); if (up.calls && up.status == 0) EXPECT(c, up.got == content, "wrong file uploaded after" << where); }
			if (!file) must("creating a file object", [&] { file = std::make_unique<FileObject>(1, s, mr); }); upload(); }
		if (o.kind == FAULTS) { std::vector<std::string> part = faults; faults.clear(); must("reading faults", [&] { fm->handleFaultParameters(s, mr); }); EXPECT(c, faults.size() == 3 && part.size() <= 3 && std::equal(part.begin(), part.end(), faults.begin()), "wrong faults after" << where); }
		Op d; d.kind = DISCOVER; if (o.kind == DISCOVER) must("a discovery", [&] { operate(d); }); d.kind = IDENTITY; if (o.kind == IDENTITY) must("an identity read-out", [&] { operate(d); });
		if (o.kind == OPEN || o.kind == CLOSE) { d.kind = OPEN; d.a = o.a; size_t k = conns.size(); must("a forward open", [&] { operate(d); }); EXPECT(c, conns.size() == k + 1, "no connection was opened after" << where); d.kind = CLOSE; d.a = unsigned(conns.size() - 1); must("a forward close", [&] { operate(d); }); EXPECT(c, conns.back()->w.expired(), "a connection survives its close after" << where); conns.pop_back(); } }
	void upload() { up = Upload(); must("beginning an upload", [&] { file->beginUpload(s, [this](cip::GeneralStatusCodes st, const Bytes& b) { ++up.calls; up.status = int(st); up.got = b; }); }); bool more = true; unsigned k = 0; while (more && k++ < 60) must("a transfer", [&] { more = file->handleTransfers(s); }); EXPECT(c, up.calls == 1 && up.status == 0 && up.got == content, "an upload of " << content.size() << " bytes ended with " << up.calls << " calls, status " << up.status << " and " << up.got.size() << " bytes after" << where); up = Upload(); }
	void end() { // the connections that are left time out, each with one notice
		where = " at the end"; if (cm) { n.advance(200000); must("handling connections", [&] { cm->handleConnections(milliseconds(0)); }); for (auto& k : conns) EXPECT(c, k->w.expired() && (!k->listening || k->closed == 1), "a silent connection was not closed with one notice at the end"); EXPECT(c, !cm->hasOpenConnections() , "open connections are left"); }
		file.reset(); cm.reset(); s.reset(); for (auto& k : n.socks) { EXPECT(c, !k.second.open, "a socket is left open at the end"); EXPECT(c, k.second.closes == 1, "a socket was closed " << k.second.closes << " times"); } }
};

void run(Case& c) {
	utils::Logger::setAppender(std::make_unique<Appender>()); utils::Logger::setLogLevel(c.coin() ? utils::LogLevel::TRACE : utils::LogLevel(c.below(4))); errno = 0;
	std::vector<Op> prog(2 + c.below(7)); unsigned fileSize = unsigned(c.below(300)); unsigned theme = unsigned(c.below(4));
	static const std::vector<unsigned> themes[4] = {{}, {FILE_, BEGIN, STEP, STEP}, {OPEN, OPEN, TRAFFIC, TICK, CLOSE, LISTEN}, {PARAMETER, REFRESH, REQUEST, FAULTS, IDENTITY}};
	for (size_t i = 0; i < prog.size(); ++i) { auto& o = prog[i]; o.kind = i == 0 ? unsigned(SESSION) : theme && c.coin() ? themes[theme][c.below(themes[theme].size())] : unsigned(c.below(KINDS)); o.a = unsigned(c.below(64)); o.b = unsigned(c.below(64)); o.data = c.bytes(c.coin() ? 20 : c.below(100)); o.hurt = i + 1 == prog.size() || c.oneIn(4); o.sticky = c.oneIn(3); o.at = c.below(4096); }
	{ bool s = false, f = false, u = false, p = false; unsigned k = 0; // an operation that needs something not there yet makes that first
	for (auto& o : prog) { auto& x = o.kind; if (x != DISCOVER && x != MANAGER && !s) x = SESSION; if (x == STEP && !u) x = BEGIN; if ((x == BEGIN && u)) x = STEP; if ((x == STEP || x == BEGIN) && !f) x = FILE_; if (x == REFRESH && !p) x = PARAMETER; if ((x == CLOSE || x == TRAFFIC || x == TICK || x == SILENCE || x == LISTEN) && !k) x = OPEN;
		switch (x) { case SESSION: s = true; break; case DROP: s = o.hurt; break; case FILE_: f = true; u = false; break; case BEGIN: u = !o.hurt; break; case STEP: u = !o.hurt && u; break; case PARAMETER: p = true; break; case OPEN: ++k; break; case CLOSE: --k; break; case SILENCE: case MANAGER: k = 0; break; default:; } } }
	std::vector<int64_t> uses; static bool warm = false;
	if (!warm) { warm = true; World w(c, 100); for (unsigned k : {SESSION, REQUEST, IDENTITY, PARAMETER, REFRESH, FILE_, BEGIN, STEP, STEP, FAULTS, OPEN, LISTEN, TRAFFIC, TICK, CLOSE, OPEN, SILENCE, DISCOVER, DROP, MANAGER}) { Op o; o.kind = k; w.apply(o, true); } w.end(); } // what is made once and kept
	{ World w(c, fileSize); for (auto& o : prog) uses.push_back(w.apply(o, true)); w.end(); }
	for (size_t i = 0; i < prog.size(); ++i) { auto& o = prog[i]; c.desc << " | " << kindName[o.kind]; if (o.hurt && uses[i]) { o.at %= uint64_t(uses[i]); c.desc << " !" << o.at << "/" << uses[i] << (o.sticky ? "+" : ""); c.label(kindName[o.kind]); } else o.hurt = false; }
	unsigned f0 = failures; c.desc << " "; c.flushDesc(); int64_t before = liveBytes;
	{ World w(c, fileSize); for (auto& o : prog) w.apply(o, false); w.end(); }
	int64_t after = liveBytes; EXPECT(c, after == before, after - before << " bytes of memory are lost");
	if (failures > f0) c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C28",
	"A random program of 2-8 operations (opening and ending sessions, requests, identity, parameter and fault read-outs, file objects, uploads and transfers, forward open and close, cyclic input and output, time-outs, setting listeners, discovery, destruction of the manager) over a simulated network with a good device. A first execution counts the allocations of each operation; in the second one a chosen allocation of the last and of some other operations fails, alone or with all later ones of that operation. Oracle: such an operation ends normally, with std::bad_alloc or std::runtime_error; then no socket is open without its owner, no connection is gone without notice or close, none is closed, input arrives once, output is produced when due, the session answers right or refuses, a new session always works, an upload ends with exactly one call and only with the right file, the same objects give exact results, nothing is leaked. Non-trivial: an allocation failed.",
	run, 64, 20000, 500000, 500, 20000};
