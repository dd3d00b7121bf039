// C24: nothing accumulates over long histories.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "device.h"
#include "pf525.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include <sanitizer/allocator_interface.h>
#include <cerrno>
#include <cstdlib>
#include <memory>
#include <new>
#include <set>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;

// live C++ heap bytes of this process; freeing still goes through the sanitizer
static int64_t liveBytes = 0;
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); liveBytes += int64_t(n ? n : 1); return p; }
static void give(void* p) { if (!p) return; liveBytes -= int64_t(__sanitizer_get_allocated_size(p)); free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

namespace {
enum Kind { SESSION, OPEN, TRAFFIC, CLOSE, TIMEOUT, HANDLE, DISCOVER, IDENTITY, PARAMETER, UPLOAD, FAULTS, KINDS };
struct Op { unsigned kind = 0, how = 0, host = 0, a = 0, b = 0; Bytes data; };
const char* kindName[] = {"session", "open", "traffic", "close", "timeout", "handle", "discover", "identity", "parameter", "upload", "faults"};
const unsigned hows[] = {7, 9, 4, 4, 1, 2, 4, 3, 4, 6, 4};
struct Peer : sim::TcpPeer { int fd = -1; Bytes frame; std::function<void(const wire::Encaps&)> on;
	void onData(int f, const Bytes& d) override { fd = f; frame.insert(frame.end(), d.begin(), d.end());
		while (frame.size() >= 24) { size_t len = 24 + frame[2] + 256u * frame[3]; if (frame.size() < len) break; Bytes one(frame.begin(), frame.begin() + long(len)); frame.erase(frame.begin(), frame.begin() + long(len)); wire::Encaps e; wire::parse(one, e); if (on) on(e); } } };
struct Lost : std::runtime_error { Lost() : std::runtime_error("lost") {} };

struct Bench {
	Case& c; sim::Scope sc; sim::Net& n; bool fresh; uint32_t ids = 0x1000; std::vector<uint32_t> ips;
	std::unique_ptr<ConnectionManager> cm; std::shared_ptr<MessageRouter> mr; std::unique_ptr<DiscoveryManager> dm; std::unique_ptr<vendor::ra::powerFlex525::DPIFaultManager> fm;
	struct Live { IOConnection::WPtr w; std::shared_ptr<dev::Device> d; uint32_t t2o = 0; };
	std::vector<Live> conns; std::vector<std::pair<std::shared_ptr<Peer>, std::shared_ptr<SessionInfo>>> sessions; std::set<unsigned> hosts; unsigned events = 0;

	Bench(Case& cc) : c(cc), n(sc.n) {
		sim::vary(c, n); fresh = c.oneIn(4); for (unsigned i = 0; i < 3; ++i) ips.push_back(sim::ip(10, 0, 0, uint8_t(1 + i)));
		mr = std::make_shared<MessageRouter>(); dm = std::make_unique<DiscoveryManager>("10.0.0.255", 44818, milliseconds(50)); fm = std::make_unique<vendor::ra::powerFlex525::DPIFaultManager>(true, false, true); fm->setNewFaultListener([this](const auto&) { ++events; }); cm = std::make_unique<ConnectionManager>(); }
	std::shared_ptr<dev::Device> device(unsigned host) { return std::make_shared<dev::Device>(c, 7, sim::ipText(ips[host % 3]), 44818); }
	void lenient(const std::function<void()>& f) { try { f(); } catch (const Failure&) { throw; } catch (const std::runtime_error&) {} }

	void session(const Op& o) {
		auto p = std::make_shared<Peer>(); std::shared_ptr<SessionInfo> s; Peer* pp = p.get(); unsigned how = o.how, stage = 0;
		n.onConnect = [&](uint32_t, uint16_t) { sim::ConnectPlan k; if (how == 1) { k.kind = sim::ConnectPlan::REFUSE_LATER; k.delayUs = 100; k.err = ECONNREFUSED; } if (how == 2) k.kind = sim::ConnectPlan::SILENT; return k; };
		n.onAccepted = [&](int) { return p; };
		p->on = [&, pp, how](const wire::Encaps& e) {
			if (stage++ == 0) { if (how == 3) return; if (how == 4) { n.seg(pp->fd, 0, {}, sim::Seg::FIN); return; } n.tcpSend(pp->fd, 0, wire::encaps(0x65, 77, how == 5 ? 1 : 0, wire::W().u16(1).u16(0).b)); return; }
			if (e.cmd == 0x6F && how != 6) { wire::Reply r; r.service = 0x8E; r.data = o.data; n.tcpSend(pp->fd, 0, wire::encaps(0x6F, 77, 0, wire::rrReply(r))); } };
		lenient([&] { s = std::make_shared<SessionInfo>(sim::ipText(ips[o.host % 3]), 44818, milliseconds(40)); for (unsigned i = 0; i < o.a % 4; ++i) mr->sendRequest(s, 0x0E, cip::EPath(1, 1, 7), o.data); });
		if (s && (o.b & 1)) { p->on = nullptr; sessions.push_back({p, s}); } else { s.reset(); p->on = nullptr; }
		n.onConnect = nullptr; n.onAccepted = nullptr; }
	void open(const Op& o) {
		auto d = device(o.host); unsigned how = o.how; uint32_t id = ++ids; bool large = o.b & 4;
		d->onRequest = [&, id, how](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); if (how == 3) { r.status = 1; r.ext.push_back(0x100); return r; } if (how == 5) throw Lost();
			r.data = wire::W().u32(id ^ 0x70000000).u32(id).u16(5).u16(1).u32(2).u32(10000).u32(10000).u8(0).u8(0).b; if (how == 4) r.data.resize(o.a % 26);
			if (how == 1) r.items.push_back({0x8000, wire::sockaddr(sim::ip(192, 168, 0, 1), uint16_t(3333 + (id & 1023)))}); if (how == 6) r.items.push_back({0x8000, Bytes(o.a % 16)}); return r; };
		cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, 1}; p.o2tRPI = p.t2oRPI = 10000; p.transportTypeTrigger = 1; p.t2oNetworkConnectionParams = p.o2tNetworkConnectionParams = large ? 0x42000008 : 0x4208; p.connectionTimeoutMultiplier = uint8_t(o.a % 3);
		if (how == 7) n.fault = [](const char* k, sim::Sock*) { return std::string(k) == "socket" ? EMFILE : 0; }; if (how == 8) n.fault = [](const char* k, sim::Sock*) { return std::string(k) == "bind" ? EADDRINUSE : 0; };
		IOConnection::WPtr w; lenient([&] { w = cm->forwardOpen(d, p, large); }); n.fault = nullptr;
		if (auto k = w.lock()) { hosts.insert(o.host % 3); unsigned* ev = &events; std::shared_ptr<Bytes> held = std::make_shared<Bytes>(o.data);
			k->setReceiveDataListener([ev, held](uint32_t, uint16_t, const Bytes& b) { *ev += unsigned(b.size() + held->size()); }); k->setCloseListener([ev, held] { ++*ev; }); k->setSendDataListener([held](std::vector<uint8_t>& b) { b = *held; }); k->setDataToSend(o.data);
			d->onRequest = nullptr; conns.push_back({w, d, id}); } }
	void close(const Op& o) {
		if (conns.empty()) return; size_t i = o.a % conns.size(); Live l = conns[i]; conns.erase(conns.begin() + long(i));
		l.d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); if (o.how == 1) r.status = 3; if (o.how == 2) throw Lost(); return r; };
		lenient([&] { cm->forwardClose(l.d, l.w); }); if (o.how == 3) lenient([&] { cm->forwardClose(l.d, l.w); }); l.d->onRequest = nullptr;
		EXPECT(c, l.w.expired(), "a closed connection is still alive though nobody holds it"); }
	void traffic(const Op& o) {
		for (unsigned i = 0; i < 1 + o.a % 5; ++i) { uint32_t id = conns.empty() || o.how == 1 ? 0x99 : conns[(o.b + i) % conns.size()].t2o; Bytes d = wire::packItems({{0x8002, wire::W().u32(id).u32(i).b}, {0x00B1, wire::W().u16(i).raw(o.data).b}}); if (o.how == 2) d.resize(o.b % d.size()); if (o.how == 3) d = o.data;
			sim::Datagram g; g.data = d; g.srcIp = ips[0]; g.srcPort = 2222; n.deliver(2222, g, o.b); }
		cm->handleConnections(milliseconds(0)); }
	void discover(const Op& o) {
		n.onSend = [&](const sim::Sent& s) { if (s.port != 44818) return; for (unsigned i = 0; i < o.a % 4; ++i) { Bytes item = wire::W().u16(1).u16be(2).u16be(44818).u32be(ips[i % 3]).raw(Bytes(8)).u16(1).u16(2).u16(3).u8(1).u8(2).u16(0).u32(9).shortStr("device").u8(3).b; Bytes b = wire::encaps(0x63, 0, 0, wire::packItems({{0x0C, item}})); if (o.how == 1) b.resize(o.b % b.size()); sim::Datagram g; g.data = b; g.srcIp = ips[i % 3]; n.deliverFd(s.fd, g); } if (o.how == 2) { sim::Datagram g; g.err = ENETDOWN; n.deliverFd(s.fd, g); } };
		if (o.how == 3) n.fault = [](const char* k, sim::Sock*) { return std::string(k) == "send" ? ENETUNREACH : 0; };
		lenient([&] { auto l = dm->discover(); events += unsigned(l.size()); }); n.onSend = nullptr; n.fault = nullptr; }
	void objects(const Op& o) {
		auto d = device(o.host); unsigned k = 0;
		d->onRequest = [&](const dev::Exchange& x) {
			wire::Reply r; r.service = uint8_t(x.req.service | 0x80); unsigned step = k++;
			switch (o.kind) {
			case IDENTITY: r.data = wire::W().u16(1).u16(2).u16(3).u8(1).u8(2).u16(0).u32(4).shortStr("a device with a long name").b; if (o.how == 1) r.status = 5; if (o.how == 2) r.data.resize(o.a % r.data.size()); break;
			case PARAMETER: // descriptor says scalable, every attribute answered with plenty of zero bytes
				r.data = Bytes(o.how == 1 ? o.a % 8 : 60); if (x.req.path.n == 3 && x.req.path.id[2] == 6) r.data = {2}; if (o.how == 2 && step == o.a % 6) r.status = 5; if (o.how == 3 && step == o.a % 6) throw Lost(); break;
			case UPLOAD: { if (x.req.service == 0x0E) { r.data = {2}; if (o.how == 5) r.status = 5; break; } if (x.req.service == 0x4B) { r.data = wire::W().u32(30).u8(10).b; if (o.how == 1) r.status = 2; break; }
				unsigned num = x.req.data.empty() ? 0 : x.req.data[0]; bool last = num == 2; r.data = wire::W().u8(num).u8(last ? 2 : num ? 1 : 0).raw(Bytes(10, 'x')).b; if (last) r.data = wire::W().raw(r.data).u16(0).b; if (o.how == 2 && num == o.a % 3) r.status = 9; if (o.how == 3 && num == o.a % 3) r.data.resize(o.b % 3); break; }
			default: { if (x.req.service == 0x10) break; unsigned prm = x.req.path.n >= 2 ? x.req.path.id[1] : 0, pos = prm <= 9 ? prm - 6 : prm >= 604 && prm <= 610 ? prm - 600 : 0; r.data = wire::W().u16(pos ? (pos <= 1 + o.a % 5 ? 4 : 0) : 100).b; if (o.how == 1 && step == o.b % 9) r.status = 5; if (o.how == 2 && step == o.b % 9) r.data.resize(1); if (o.how == 3 && step == o.b % 9) throw Lost(); } }
			return r; };
		lenient([&] {
			switch (o.kind) {
			case IDENTITY: { IdentityObject i(1, d, mr); events += i.getVendorId(); break; }
			case PARAMETER: { ParameterObject p(1, true, d, mr); p.updateValue(d); break; }
			case UPLOAD: { FileObject f(1, d, mr); unsigned* ev = &events; auto held = std::make_shared<Bytes>(o.data); for (unsigned i = 0; i < 1 + o.b % 2; ++i) { f.beginUpload(d, [ev, held](auto, const Bytes& b) { *ev += unsigned(b.size() + held->size()); }); unsigned steps = o.how == 4 ? o.a % 3 : 10; while (steps-- && f.handleTransfers(d)) {} } break; }
			default: fm->handleFaultParameters(d); } });
	}
	void apply(const Op& o) {
		switch (o.kind) {
		case SESSION: session(o); break; case OPEN: open(o); break; case TRAFFIC: traffic(o); break; case CLOSE: close(o); break;
		case TIMEOUT: n.advance(200000); cm->handleConnections(milliseconds(0)); EXPECT(c, !cm->hasOpenConnections(), "connections without traffic outlived their timeout"); for (auto& l : conns) EXPECT(c, l.w.expired(), "a timed-out connection is still alive though nobody holds it"); conns.clear(); break;
		case HANDLE: n.advance(9000); cm->handleConnections(milliseconds(o.how * 3)); break;
		case DISCOVER: discover(o); break; default: objects(o); }
		std::vector<Live> still; for (auto& l : conns) if (!l.w.expired()) still.push_back(l); conns = still;
		size_t tcp = 0, udp = 0, bound = 0; for (auto& s : n.socks) if (s.second.open) ++(s.second.type != SOCK_DGRAM ? tcp : s.second.bound ? bound : udp);
		std::string what = std::string(" after ") + kindName[o.kind] + " " + std::to_string(o.how);
		expectEq(c, tcp, sessions.size(), "open TCP sockets" + what); EXPECT(c, udp <= conns.size(), udp << " unbound UDP sockets for " << conns.size() << " connections" << what); EXPECT(c, bound <= hosts.size() + (o.kind == OPEN) || bound <= 3, bound << " bound sockets for " << hosts.size() << " hosts" << what);
	}
	// everything is closed: what stays open is at most one receiving socket per host
	void quiet() {
		Op t; t.kind = TIMEOUT; if (!conns.empty()) { Op cl; cl.kind = CLOSE; if (ids & 1) while (!conns.empty()) close(cl); else apply(t); }
		sessions.clear(); EXPECT(c, !cm->hasOpenConnections(), "open connections are reported after all were closed");
		if (fresh) { cm.reset(); hosts.clear(); for (auto& s : n.socks) EXPECT(c, !s.second.open, "a socket outlived its connection manager"); cm = std::make_unique<ConnectionManager>(); }
		for (auto it = n.socks.begin(); it != n.socks.end();) { if (!it->second.open) { EXPECT(c, it->second.closes == 1, "a socket was closed " << it->second.closes << " times"); it = n.socks.erase(it); } else { EXPECT(c, it->second.type == SOCK_DGRAM && it->second.bound, "a socket is left open"); decltype(it->second.rx)().swap(it->second.rx); ++it; } }
		EXPECT(c, n.socks.size() <= hosts.size(), n.socks.size() << " receiving sockets for " << hosts.size() << " hosts");
		decltype(n.sent)().swap(n.sent); n.events.clear(); decltype(conns)().swap(conns); decltype(sessions)().swap(sessions); }
};

void run(Case& c) {
	Bench b(c); std::vector<Op> prog(1 + c.below(8)); unsigned opens = 0;
	for (auto& o : prog) { o.kind = c.oneIn(3) ? unsigned(OPEN) : unsigned(c.below(KINDS)); o.how = c.coin() ? 0 : unsigned(c.below(hows[o.kind])); o.host = unsigned(c.below(3)); o.a = unsigned(c.below(64)); o.b = unsigned(c.below(64)); o.data = c.bytes(c.coin() ? 8 : c.below(40)); opens += o.kind == OPEN; c.desc << " " << kindName[o.kind] << "." << o.how; c.label(kindName[o.kind]); }
	const unsigned W = 8; std::vector<int64_t> live; // three windows of rounds; the first also warms up
	for (unsigned r = 0; r < 3 * W; ++r) { if (r == 0) live.reserve(3 * W); for (auto& o : prog) b.apply(o); b.quiet(); live.push_back(liveBytes); }
	auto top = [&](unsigned from, unsigned to) { return *std::max_element(live.begin() + from, live.begin() + to); };
	int64_t m1 = top(2, W), m2 = top(W, 2 * W), m3 = top(2 * W, 3 * W);
	if (m1 < m2 && m2 < m3) { std::ostringstream o; o << "memory grows with every repetition of the same history: live bytes after the rounds"; for (auto v : live) o << " " << v - live[0]; c.fail(o.str()); }
	EXPECT(c, b.hosts.size() <= 3, "more hosts than used"); c.nontrivial(); (void)opens;
	b.cm.reset(); for (auto& s : b.n.socks) EXPECT(c, !s.second.open, "a socket outlived its connection manager");
}
}
extern const Property pbt::theProperty = {"C24",
	"A random program of 1-8 steps (sessions that open, are refused, stay silent or break; forward opens accepted, refused, malformed, with bad socket address, lost session or failing sockets; good and bad datagrams; closes answered, refused or lost; timeouts; discoveries with good, malformed and failing answers; identity, parameter, file and fault-queue read-outs that succeed or fail), executed 24 times on the same objects, everything being closed at the end of each repetition. Oracle: open descriptors after every step and at rest (one per session and live connection, at most one receiving socket per host, each closed once), closed connections are destroyed, live heap bytes at rest do not keep growing over three windows of repetitions. Every case is non-trivial.",
	run, 256, 6000, 150000, 400, 2000};
