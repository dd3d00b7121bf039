// A simulated world for implicit (I/O) messaging: targets reached through scripted sessions, a
// ConnectionManager, and decoded views of everything it sends.
#pragma once
#include "device.h"
#include "sim.h"
#include "ConnectionManager.h"
#include <algorithm>
#include <memory>
#include <set>

namespace io {
using namespace pbt;
using eipScanner::ConnectionManager; using eipScanner::IOConnection;
using Params = eipScanner::cip::connectionManager::ConnectionParameters;
using std::chrono::milliseconds;

struct Fwd { uint8_t prio, ticks; uint32_t o2tId, t2oId; uint16_t serial, vendor; uint32_t oserial; uint8_t mult; uint32_t o2tRpi, o2tNcp, t2oRpi, t2oNcp; uint8_t trigger, words; Bytes path; };
inline Fwd decodeOpen(Case& c, const Bytes& b, bool large) {
	Fwd f; wire::R r(b);
	f.prio = r.u8(); f.ticks = r.u8(); f.o2tId = r.u32(); f.t2oId = r.u32(); f.serial = r.u16(); f.vendor = r.u16(); f.oserial = r.u32(); f.mult = r.u8();
	Bytes res = r.take(3); f.o2tRpi = r.u32(); f.o2tNcp = large ? r.u32() : r.u16(); f.t2oRpi = r.u32(); f.t2oNcp = large ? r.u32() : r.u16(); f.trigger = r.u8(); f.words = r.u8(); f.path = r.rest();
	if (!r.ok) c.fail("forward-open request is too short: " + hex(b));
	if (res != Bytes(3)) c.fail("reserved bytes of the forward-open request are not zero");
	return f;
}

struct Ncp { bool redundant = false; unsigned type = 2, prio = 0; bool variable = false; uint32_t size = 0; };
inline uint32_t packNcp(const Ncp& n, bool large) {
	return large ? uint32_t(n.redundant) << 31 | n.type << 29 | n.prio << 26 | uint32_t(n.variable) << 25 | n.size
	             : uint32_t(n.redundant) << 15 | n.type << 13 | n.prio << 10 | uint32_t(n.variable) << 9 | n.size;
}
struct Rx { uint32_t header; uint16_t seq; Bytes data; uint64_t at; };
struct Tx { uint64_t at; uint32_t id, seq; uint16_t count = 0; uint32_t header = 0; Bytes data; uint32_t ip; uint16_t port; };

struct Conn {
	Params p; Ncp o2t, t2o; bool large = false; Fwd req{}; unsigned target = 0;
	uint32_t o2tId = 0, t2oId = 0, o2tApi = 0, t2oApi = 0; uint16_t serial = 0;
	uint32_t ip = 0; uint16_t port = 2222;
	bool open = false; IOConnection::WPtr w; IOConnection::SPtr held;
	std::vector<Rx> rx; unsigned closes = 0; uint64_t openedAt = 0, lastAcc = 0, lastProd = 0; int txFd = -1;
	bool counted() const { return (p.transportTypeTrigger & 0xf) >= 1 && (p.transportTypeTrigger & 0xf) <= 3; }
	size_t o2tSize() const { return o2t.size; }
	uint64_t limit() const { return (uint64_t(4) << p.connectionTimeoutMultiplier) * t2oApi; }
};

struct World {
	Case& c; sim::Scope sc; sim::Net& n;
	std::vector<std::shared_ptr<dev::Device>> targets; std::vector<uint32_t> ips;
	std::unique_ptr<ConnectionManager> m;
	std::vector<std::unique_ptr<Conn>> conns;
	std::set<uint32_t> usedT2O, usedO2T, usedSerial;
	size_t seen = 0;     // datagrams already inspected

	World(Case& cc, unsigned maxTargets = 3) : c(cc), n(sc.n) {
		sim::vary(c, n); n.wallSeed = c.coin() ? c.u32() : 0; // somebody sets the wall clock meanwhile
		size_t k = 1 + c.below(maxTargets);
		for (size_t i = 0; i < k; ++i) { uint32_t ip = sim::ip(10, 0, uint8_t(i), uint8_t(1 + c.below(9))); ips.push_back(ip); targets.push_back(std::make_shared<dev::Device>(c, c.u32(), sim::ipText(ip), 44818)); }
		m = std::make_unique<ConnectionManager>();
	}
	~World() = default;

	Params params(Conn& k, bool wild) {
		Params p;
		k.large = c.coin();
		auto ncp = [&](Ncp& q) {
			q.type = unsigned(c.coin() ? 2 : c.below(4)); q.variable = c.coin(); q.redundant = wild && c.coin(); q.prio = wild ? unsigned(c.below(4)) : 0;
			size_t mx = k.large ? (c.oneIn(8) ? 65529 : 1500) : 505; q.size = uint32_t(c.size(mx, {0, 1, 2, 32, 64, 500, 505})); };
		ncp(k.o2t); ncp(k.t2o);
		p.priorityTimeTick = c.u8(); p.timeoutTicks = c.u8(); p.o2tNetworkConnectionId = c.u32(); p.t2oNetworkConnectionId = c.u32(); p.connectionSerialNumber = c.u16();
		p.originatorVendorId = c.u16(); p.originatorSerialNumber = c.u32(); p.connectionTimeoutMultiplier = uint8_t(c.below(8)); p.o2tRPI = c.u32(); p.t2oRPI = c.u32();
		p.o2tNetworkConnectionParams = packNcp(k.o2t, k.large); p.t2oNetworkConnectionParams = packNcp(k.t2o, k.large);
		p.transportTypeTrigger = uint8_t(c.below(4) | (c.below(3) << 4) | (c.coin() ? 0x80 : 0)); p.o2tRealTimeFormat = c.coin(); p.t2oRealTimeFormat = c.coin();
		p.connectionPathSize = c.u8(); p.connectionPath = c.bytes(2 * c.below(c.oneIn(10) ? 255 : 12));
		return p;
	}
	// the id a device grants: often differing from another connection's in one half or one bit only
	uint32_t freshT2O() {
		for (int i = 0; i < 100; ++i) {
			uint32_t id = c.u32();
			if (!conns.empty() && c.coin()) { uint32_t o = conns[c.below(conns.size())]->t2oId; id = c.coin() ? o ^ (uint32_t(1 + c.below(65535)) << 16) : o ^ (1u << c.below(32)); }
			if (usedT2O.insert(id).second) return id;
		}
		uint32_t id = 1; while (!usedT2O.insert(id).second) ++id; return id;
	}
	uint32_t freshO2T() { for (int i = 0; i < 100; ++i) { uint32_t id = c.u32(); if (usedO2T.insert(id).second) return id; } uint32_t id = 1; while (!usedO2T.insert(id).second) ++id; return id; }

	Bytes acceptance(const Conn& k, const Bytes& app) const {
		return wire::W().u32(k.o2tId).u32(k.t2oId).u16(k.serial).u16(k.p.originatorVendorId).u32(k.p.originatorSerialNumber).u32(k.o2tApi).u32(k.t2oApi).u8(app.size() / 2).u8(0).raw(app).b;
	}
	void checkRequest(const Conn& k, const dev::Exchange& x) {
		expectEq(c, unsigned(x.req.service), k.large ? 0x5Bu : 0x54u, "service of the open request");
		EXPECT(c, x.req.path == wire::path(6, 1), "the open request addresses " << wire::show(x.req.path));
		EXPECT(c, x.extra.empty(), "the open request carries extra items");
		Fwd f = decodeOpen(c, x.req.data, k.large); auto& p = k.p;
		expectEq(c, f.prio, p.priorityTimeTick, "priority/time tick"); expectEq(c, f.ticks, p.timeoutTicks, "timeout ticks");
		if (k.o2t.type != 1) expectEq(c, f.o2tId, p.o2tNetworkConnectionId, "O->T connection id");
		if (k.t2o.type != 2) expectEq(c, f.t2oId, p.t2oNetworkConnectionId, "T->O connection id");
		expectEq(c, f.vendor, p.originatorVendorId, "originator vendor id"); expectEq(c, f.oserial, p.originatorSerialNumber, "originator serial number"); expectEq(c, f.mult, p.connectionTimeoutMultiplier, "timeout multiplier");
		expectEq(c, f.o2tRpi, p.o2tRPI, "O->T packet interval"); expectEq(c, f.t2oRpi, p.t2oRPI, "T->O packet interval");
		Ncp a = k.o2t, b = k.t2o; a.size += (k.counted() ? 2 : 0) + (p.o2tRealTimeFormat ? 4 : 0); b.size += (k.counted() ? 2 : 0) + (p.t2oRealTimeFormat ? 4 : 0);
		expectEq(c, f.o2tNcp, packNcp(a, k.large), "O->T network parameters"); expectEq(c, f.t2oNcp, packNcp(b, k.large), "T->O network parameters");
		expectEq(c, f.trigger, p.transportTypeTrigger, "transport class/trigger"); expectEq(c, size_t(f.words), (p.connectionPath.size() + 1) / 2, "path length in words"); expectEq(c, f.path, p.connectionPath, "connection path");
	}
	// opens k (its p/o2t/t2o/large/target set) with the reply made by `reply`
	IOConnection::WPtr call(Conn& k) {
		return k.large && c.coin() ? m->largeForwardOpen(targets[k.target], k.p) : k.large ? m->forwardOpen(targets[k.target], k.p, true) : m->forwardOpen(targets[k.target], k.p);
	}
	// a successful open; apis as set in k (o2tApi, t2oApi)
	Conn& open(bool wild, std::function<void(Conn&)> tune = nullptr) {
		auto kp = std::make_unique<Conn>(); Conn& k = *kp; k.target = unsigned(c.below(targets.size())); k.p = params(k, wild);
		k.o2tApi = 10000; k.t2oApi = 0xffffffffu; if (tune) tune(k);
		k.p.o2tNetworkConnectionParams = packNcp(k.o2t, k.large); k.p.t2oNetworkConnectionParams = packNcp(k.t2o, k.large);
		k.o2tId = freshO2T(); if (!k.t2oId) k.t2oId = freshT2O();
		auto d = targets[k.target]; k.ip = ips[k.target]; k.port = 2222;
		wire::Reply r; std::vector<wire::Item> items; if (c.oneIn(4)) items.push_back({0x8001, wire::sockaddr(c.u32(), c.u16())});
		unsigned sa = unsigned(c.below(3));
		if (sa == 1) { k.ip = sim::ip(192, 168, uint8_t(c.below(3)), uint8_t(1 + c.below(200))); k.port = uint16_t(1 + c.below(65535)); items.push_back({0x8000, wire::sockaddr(k.ip, k.port)}); }
		if (sa == 2) { k.port = uint16_t(1 + c.below(65535)); items.push_back({0x8000, wire::sockaddr(0, k.port)}); }
		if (c.oneIn(4)) items.push_back({0x8001, wire::sockaddr(c.u32(), c.u16())});
		Bytes app = c.bytes(2 * c.below(5)); size_t before = d->log.size(); Conn* kk = &k; std::set<int> fds; for (auto& s : n.socks) if (s.second.open) fds.insert(s.first);
		d->onRequest = [this, kk, items, app](const dev::Exchange& x) {
			Fwd f = decodeOpen(c, x.req.data, kk->large); kk->req = f; kk->serial = c.oneIn(5) ? c.u16() : f.serial;
			wire::Reply r; r.service = uint8_t(x.req.service | 0x80); r.data = acceptance(*kk, app); r.items = items; return r; };
		mustPass(c, "open", [&] { k.w = call(k); });
		expectEq(c, d->log.size(), before + 1, "requests of one open"); checkRequest(k, d->log.back());
		k.held = k.w.lock(); EXPECT(c, k.held != nullptr, "the accepted open gave an empty handle"); EXPECT(c, m->hasOpenConnections(), "no open connection is reported after an accepted open");
		k.open = true; k.openedAt = k.lastAcc = k.lastProd = n.nowUs;
		for (auto& s : n.socks) if (!fds.count(s.first) && s.second.open && !s.second.bound) k.txFd = s.first;
		EXPECT(c, k.txFd >= 0, "no socket was opened to send the connection's data");
		k.held->setReceiveDataListener([this, kk](uint32_t h, uint16_t s, const Bytes& b) { kk->rx.push_back({h, s, b, n.nowUs}); });
		k.held->setCloseListener([kk] { kk->closes++; });
		if (c.coin()) k.held.reset();
		conns.push_back(std::move(kp));
		c.desc << " open#" << conns.size() - 1 << "(host " << k.target << (k.large ? " large" : "") << " class " << int(k.p.transportTypeTrigger & 15) << (k.p.o2tRealTimeFormat ? " o2tHdr" : "") << (k.p.t2oRealTimeFormat ? " t2oHdr" : "")
			<< " o2t " << (k.o2t.variable ? "var " : "fix ") << k.o2t.size << " t2o " << (k.t2o.variable ? "var " : "fix ") << k.t2o.size << " ids " << std::hex << k.o2tId << "/" << k.t2oId << std::dec << " api " << k.o2tApi << "/" << k.t2oApi << " mult " << int(k.p.connectionTimeoutMultiplier) << ")";
		return k;
	}
	// an open connection whose multicast production the next connection may join (with the same format), if any
	Conn* producer() { std::vector<Conn*> v; for (auto& x : conns) if (x->open) v.push_back(x.get()); return v.empty() ? nullptr : v[c.below(v.size())]; }
	static void join(Conn& q, const Conn& o) { q.t2oId = o.t2oId; q.target = o.target; q.t2o = o.t2o; q.large = o.large; if (!q.large && q.o2t.size > 505) q.o2t.size = 505; q.p.t2oRealTimeFormat = o.p.t2oRealTimeFormat; q.p.transportTypeTrigger = uint8_t((q.p.transportTypeTrigger & 0xF0) | (o.p.transportTypeTrigger & 0x0F)); q.t2o.type = 1; }
	// does k take this data item?
	static bool takes(const Conn& k, const Bytes& payload, Rx& r) {
		wire::R d(payload); r.seq = k.counted() ? d.u16() : 0; r.header = k.p.t2oRealTimeFormat ? d.u32() : 0; if (!d.ok) return false; r.data = d.rest(); return k.t2o.variable || r.data.size() == k.t2o.size; }
	std::shared_ptr<IOConnection> lock(Conn& k) { return k.held ? k.held : k.w.lock(); }
	void close(Conn& k) {
		auto d = targets[k.target]; uint8_t st = c.coin() ? 0 : dev::errorStatus(c); size_t before = d->log.size(); bool was = k.open;
		d->onRequest = [st](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); r.status = st; r.data = Bytes(10); return r; };
		mustPass(c, "close", [&] { if (k.held) m->forwardClose(d, k.held); else m->forwardClose(d, k.w); });
		if (was) { expectEq(c, d->log.size(), before + 1, "requests of one close"); checkClose(k, d->log.back()); }
		k.open = false;
	}
	void checkClose(const Conn& k, const dev::Exchange& x) {
		expectEq(c, unsigned(x.req.service), 0x4Eu, "service of the close request"); EXPECT(c, x.req.path == wire::path(6, 1), "the close request addresses " << wire::show(x.req.path));
		wire::R r(x.req.data); r.take(2); uint16_t s = r.u16(), v = r.u16(); uint32_t o = r.u32(); uint8_t w = r.u8(), z = r.u8(); Bytes p = r.rest(); EXPECT(c, r.ok, "the close request is too short");
		expectEq(c, s, k.serial, "serial number in the close request"); expectEq(c, v, k.p.originatorVendorId, "vendor id in the close request"); expectEq(c, o, k.p.originatorSerialNumber, "originator serial number in the close request");
		expectEq(c, size_t(w), k.p.connectionPath.size() / 2, "path length in the close request"); expectEq(c, unsigned(z), 0u, "reserved byte of the close request"); expectEq(c, p, k.p.connectionPath, "path in the close request");
	}
	void handle(uint64_t ms) { mustPass(c, "handling connections", [&] { m->handleConnections(milliseconds(ms)); }); }
	size_t openConns() const { size_t k = 0; for (auto& x : conns) k += x->open; return k; }
	void checkOpen() { EXPECT(c, m->hasOpenConnections() == (openConns() > 0), "open connections reported: " << m->hasOpenConnections() << ", open: " << openConns()); }

	Bytes t2oPayload(const Conn& k, uint16_t seq, uint32_t hdr, const Bytes& data) const { wire::W w; if (k.counted()) w.u16(seq); if (k.p.t2oRealTimeFormat) w.u32(hdr); return w.raw(data).b; }
	static Bytes datagram(uint32_t id, uint32_t seq, const Bytes& payload) { return wire::packItems({{0x8002, wire::W().u32(id).u32(seq).b}, {0x00B1, payload}}); }
	void arrive(uint64_t inUs, const Bytes& b, unsigned which) {
		auto f = [this, b, which] { sim::Datagram g; g.data = b; g.srcIp = ips[which % ips.size()]; g.srcPort = 2222; n.deliver(2222, g, which); };
		if (inUs) n.after(inUs, f); else f();
	}
	// decodes the datagrams sent since the last call; every one must be a well-formed production of a known connection
	std::vector<std::pair<Conn*, Tx>> sentNow() {
		std::vector<std::pair<Conn*, Tx>> out;
		for (; seen < n.sent.size(); ++seen) {
			auto& s = n.sent[seen]; std::vector<wire::Item> it;
			EXPECT(c, wire::parseItems(s.data, it) && it.size() == 2, "sent datagram is not a two-item packet: " << hex(s.data));
			EXPECT(c, it[0].type == 0x8002 && it[0].data.size() == 8, "sent datagram has no sequenced address item: " << hex(s.data)); EXPECT(c, it[1].type == 0x00B1, "sent datagram has no connected data item: " << hex(s.data));
			wire::R a(it[0].data); Tx t; t.at = s.at; t.id = a.u32(); t.seq = a.u32(); t.ip = s.ip; t.port = s.port;
			Conn* k = nullptr; for (auto& x : conns) if (x->o2tId == t.id) k = x.get();
			EXPECT(c, k, "datagram sent with an O->T id nobody granted: " << t.id);
			wire::R d(it[1].data); if (k->counted()) t.count = d.u16(); if (k->p.o2tRealTimeFormat) t.header = d.u32(); EXPECT(c, d.ok, "sent data item is too short: " << hex(s.data)); t.data = d.rest();
			out.push_back({k, t});
		}
		return out;
	}
	void finish() {
		for (auto& k : conns) k->held.reset();
		m.reset();
		for (auto& s : n.socks) EXPECT(c, !s.second.open && s.second.closes == 1, "socket " << s.first << " was closed " << s.second.closes << " times");
	}
};
}
