// C27: what does not fit is refused, never silently cut.
#include "io.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "cip/CipString.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "utils/Buffer.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include <cerrno>
#include <memory>
using namespace io;
using namespace eipScanner;

namespace {
// a number near one of the limits a field may have, or anywhere around limit
size_t around(Case& c, size_t limit, size_t over = 40) {
	switch (c.below(6)) { case 0: return size_t(c.below(20)); case 1: return limit; case 2: return limit + 1; case 3: return limit - std::min<size_t>(limit, c.below(over)); case 4: return limit + 1 + c.below(over); default: return size_t(c.below(limit + limit / 4 + 2)); } }
// far beyond: values that fit again when only their lower bits are looked at
size_t wide(Case& c, size_t limit, size_t over = 40) { if (c.oneIn(4)) return (limit + 1) * (1 + c.below(2)) + c.below(30); return around(c, limit, over); }
uint16_t idOf(Case& c) { switch (c.below(6)) { case 0: return uint16_t(c.below(256)); case 1: return 255; case 2: return 256; case 3: return uint16_t(256 * (1 + c.below(255)) + c.below(4)); case 4: return c.u16(); default: return uint16_t(1 + c.below(3)); } }
// mostly ids that fit, so that one that does not stands alone
uint16_t idMix(Case& c) { return c.coin() ? uint16_t(c.below(256)) : idOf(c); }
Bytes big(Case& c, size_t n) { if (n <= 64) return c.bytes(n); Bytes b(n); uint8_t a = c.u8(), s = uint8_t(1 + 2 * c.below(100)); for (size_t i = 0; i < n; ++i) b[i] = uint8_t(a + s * i + (i >> 8)); return b; }

struct Result { unsigned fit = 0, refused = 0; } seen;
// calls f, which must succeed exactly if fits
bool judge(Case& c, bool fits, const std::string& what, const std::function<void()>& f) {
	std::string why; Outcome o = guarded(c, what, f, &why);
	if (fits) EXPECT(c, o == Outcome::OK, what << " fits but was refused: " << why); else EXPECT(c, o == Outcome::RUNTIME_ERROR, what << " does not fit but was accepted");
	if (fits) { ++seen.fit; c.label("fits"); } else { ++seen.refused; c.label("refused"); }
	c.nontrivial(); return fits; }

wire::Path genPath(Case& c, bool yask) { wire::Path p; p.n = 1 + int(c.below(3)); for (int i = 0; i < p.n; ++i) p.id[i] = yask ? c.u8() : idMix(c); return p; }
bool fits8(const wire::Path& p) { for (int i = 0; i < p.n; ++i) if (p.id[i] > 255) return false; return true; }

void requests(Case& c, bool session) {
	sim::Scope sc; unsigned kind = unsigned(c.below(3)); bool eight = kind > 0; uint32_t handle = c.u32(); c.label(session ? "requests over TCP" : "requests"); c.desc << (kind == 0 ? "16-bit" : kind == 1 ? "8-bit" : "Yaskawa") << (session ? " session:" : ":");
	auto dev0 = std::make_shared<dev::Device>(c, handle); dev0->expectEight = eight; SessionInfoIf::SPtr si = dev0; size_t bytesSent = 0, connects = 0;
	struct Peer : sim::TcpPeer { dev::Device& d; uint32_t h; Bytes in; size_t& bytes; Peer(dev::Device& x, uint32_t hh, size_t& b) : d(x), h(hh), bytes(b) {}
		void onData(int fd, const Bytes& b) override { bytes += b.size(); in.insert(in.end(), b.begin(), b.end());
			while (in.size() >= 24) { size_t len = 24 + in[2] + 256u * in[3]; if (in.size() < len) break; Bytes one(in.begin(), in.begin() + long(len)); in.erase(in.begin(), in.begin() + long(len));
				uint16_t cmd = uint16_t(one[0] + 256u * one[1]); if (cmd == 0x65) { sim::net->tcpSend(fd, 0, wire::encaps(0x65, h, 0, Bytes{1, 0, 0, 0})); continue; } if (cmd == 0x66) continue;
				dev::Exchange x = dev::Device::decode(d.c, one, h, d.expectEight); d.log.push_back(x); sim::net->tcpSend(fd, 0, wire::encaps(0x6F, h, 0, wire::rrReply(d.onRequest(x)))); } } };
	dev0->onRequest = [](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); r.data = Bytes{uint8_t(x.req.data.size()), uint8_t(x.req.data.size() >> 8)}; return r; };
	sc.n.onConnect = [&](uint32_t, uint16_t) { ++connects; return sim::ConnectPlan{}; };
	sc.n.onAccepted = [&](int) { return std::make_shared<Peer>(*dev0, handle, bytesSent); };
	if (session) {
		if (c.oneIn(4)) { long port = c.pick({65536L, 65537L, -1L, 44818L + 65536, 1L << 20, -44818L, -65536L + 44818, 2147483647L, -2147483647L - 1}); judge(c, false, "a session on port " + std::to_string(port), [&] { SessionInfo("10.0.0.1", int(port), std::chrono::milliseconds(100)); }); expectEq(c, connects, size_t(0), "connections made for a port out of range");
			judge(c, false, "discovery on port " + std::to_string(port), [&] { DiscoveryManager("10.0.0.255", int(port), std::chrono::milliseconds(10)); }); }
		mustPass(c, "session", [&] { si = std::make_shared<SessionInfo>("10.0.0.1", c.coin() ? 44818 : 65535, std::chrono::milliseconds(100)); });
	}
	MessageRouter std16(false), std8(true); Yaskawa_MessageRouter y; unsigned n = 1 + unsigned(c.below(4));
	for (unsigned i = 0; i < n; ++i) {
		bool plain = i > 0 && seen.refused && c.coin(); uint8_t svc = uint8_t(c.below(128)); wire::Path p = plain ? wire::path(4, 5) : genPath(c, kind == 2); std::vector<wire::Item> extra; std::vector<eip::CommonPacketItem> xi; Bytes data; size_t frame = 6 + 2 + 4 + 4 + 2 + p.n * (eight ? 2 : 4);
		unsigned shape = plain ? 0 : unsigned(c.below(4)); // 0 small, 1 much data, 2 items with data, 3 many items
		if (shape == 0) data = c.bytes(c.below(20));
		if (shape == 1) data = big(c, wide(c, 65535 - frame, 24));
		if (shape == 2) { size_t k = 1 + c.below(3), room = 65535 - frame; for (size_t q = 0; q < k; ++q) { wire::Item it; it.type = uint16_t(c.pick({0x8000, 0x8001, 0xB1, 0})); size_t part = q + 1 < k ? c.below(room / 2) : 0; room -= std::min(room, part + 4); it.data = big(c, part); extra.push_back(it); } if (c.coin()) { extra.back().data = big(c, std::min<size_t>(65535, around(c, room, 10))); } else data = big(c, around(c, room, 10)); }
		if (shape == 3) { size_t k = c.oneIn(4) ? 65530 + c.below(12) : (65535 - frame) / 4 - 2 + c.below(5); wire::Item it; it.type = 0x8001; extra.assign(k, it); data = c.bytes(c.below(4)); }
		frame += data.size(); for (auto& e : extra) frame += 4 + e.data.size(); bool fits = frame <= 65535 && (!eight || fits8(p)); for (auto& e : extra) xi.emplace_back(eip::CommonPacketItemIds(e.type), e.data);
		c.desc << " " << wire::show(p) << " data " << data.size() << " items " << extra.size() << (fits ? "" : " (does not fit)"); size_t before = dev0->log.size(), beforeBytes = bytesSent;
		cip::MessageRouterResponse got; auto path = dev::toEPath(p); auto ypath = p.n == 1 ? cip::Yaskawa_EPath(uint8_t(p.id[0])) : p.n == 2 ? cip::Yaskawa_EPath(uint8_t(p.id[0]), uint8_t(p.id[1])) : cip::Yaskawa_EPath(uint8_t(p.id[0]), uint8_t(p.id[1]), uint8_t(p.id[2]));
		std::ostringstream what; what << "request " << wire::show(p) << " with " << data.size() << " bytes of data and " << extra.size() << " items";
		judge(c, fits, what.str(), [&] { got = kind == 2 ? (extra.empty() && c.coin() ? y.sendRequest(si, svc, ypath, data) : y.sendRequest(si, svc, ypath, data, xi)) : extra.empty() && c.coin() ? (eight ? std8 : std16).sendRequest(si, svc, path, data) : (eight ? std8 : std16).sendRequest(si, svc, path, data, xi); });
		if (!fits) { expectEq(c, dev0->log.size(), before, "requests sent for a refused one"); expectEq(c, bytesSent, beforeBytes, "bytes sent for a refused request"); continue; }
		expectEq(c, dev0->log.size(), before + 1, "requests sent"); auto& x = dev0->log.back(); EXPECT(c, x.req.path == p, "the request addresses " << wire::show(x.req.path) << " instead of " << wire::show(p)); expectEq(c, x.req.service, svc, "service"); expectEq(c, x.req.data, data, "data of the request"); EXPECT(c, x.extra == extra, "the extra items differ"); expectEq(c, got.getData(), Bytes({uint8_t(data.size()), uint8_t(data.size() >> 8)}), "reply");
		if (dev0->log.size() > 2) { dev0->log.clear(); }
	}
	si.reset();
}

void objects(Case& c) { // objects read through an 8-bit router
	bool eight = !c.oneIn(4); auto d = std::make_shared<dev::Device>(c, c.u32()); d->expectEight = eight; auto mr = std::make_shared<MessageRouter>(eight); unsigned n = 1 + unsigned(c.below(3)); c.label("objects"); c.desc << (eight ? "8-bit" : "16-bit") << " router:";
	for (unsigned i = 0; i < n; ++i) {
		unsigned what = unsigned(c.below(3)); uint16_t in = idOf(c); if (!in) in = 1; bool fits = !eight || in < 256; size_t before = d->log.size(); static const int cls[] = {1, 0x0F, 0x37}; c.desc << " " << cls[what] << "/" << in; unsigned full = unsigned(c.below(2));
		d->onRequest = [&](const dev::Exchange& x) { EXPECT(c, x.req.path.id[0] == cls[what] && x.req.path.id[1] == in, "class " << cls[what] << " instance " << in << " was asked for, the request addresses " << wire::show(x.req.path));
			wire::Reply r; r.service = uint8_t(x.req.service | 0x80); if (what == 0) r.data = wire::W().zeros(14).u8(0).b; else if (what == 1 && x.req.service == 1) r.data = wire::W().u16(7).u8(2).u16(9).u16(0).u8(0xC7).u8(2).u8(0).u8(0).u8(0).u16(1).u16(2).u16(3).zeros(20).b; else if (what == 1) r.data = x.req.path.id[2] == 4 ? Bytes{0, 0} : x.req.path.id[2] == 5 || x.req.path.id[2] == 6 ? Bytes{2} : Bytes{7, 0}; else r.data = Bytes{2}; return r; };
		std::unique_ptr<ParameterObject> p;
		std::ostringstream w; w << "object of class " << cls[what] << " instance " << in; if (!judge(c, fits, w.str(), [&] { if (what == 0) IdentityObject(in, d, mr); else if (what == 1) p = std::make_unique<ParameterObject>(in, full, d, mr); else FileObject(in, d, mr); })) expectEq(c, d->log.size(), before, "requests sent for a refused object"); else EXPECT(c, d->log.size() > before, "no request was sent");
		if (p) mustPass(c, "refreshing a parameter", [&] { p->updateValue(d); });
	}
}

void codec(Case& c) {
	c.label("encoders"); unsigned n = 1 + unsigned(c.below(4)); eip::EncapsPacket packet; Bytes held;
	for (unsigned i = 0; i < n; ++i) switch (c.below(9)) {
	case 0: { wire::Path p = genPath(c, false); c.desc << " path " << wire::show(p); Bytes got; if (judge(c, fits8(p), "8-bit path " + wire::show(p), [&] { got = dev::toEPath(p).packPaddedPath(true); })) expectEq(c, got, wire::packPath(p, true), "8-bit path"); expectEq(c, dev::toEPath(p).packPaddedPath(false), wire::packPath(p, false), "16-bit path"); break; }
	case 1: { wire::Path p = genPath(c, false); Bytes data = c.bytes(c.below(9)), got; uint8_t svc = c.u8(); c.desc << " request " << wire::show(p); if (judge(c, fits8(p), "8-bit request " + wire::show(p), [&] { got = cip::MessageRouterRequest(svc, dev::toEPath(p), data, true).pack(); })) expectEq(c, got, wire::packRequest(svc, p, true, data), "8-bit request"); break; }
	case 2: { size_t k = wide(c, 65535); Bytes b = big(c, k); c.desc << " payload " << k; if (judge(c, k <= 65535, "payload of " + std::to_string(k) + " bytes", [&] { packet.setData(b); })) held = b; Bytes want = wire::encaps(uint16_t(packet.getCommand()), 0, 0, held); Bytes got = packet.pack(); expectEq(c, got.size(), 24 + held.size(), "size of the frame"); expectEq(c, packet.getLength(), uint16_t(held.size()), "length"); expectEq(c, Bytes(got.begin() + 24, got.end()), held, "payload in the frame"); expectEq(c, unsigned(got[2] + 256u * got[3]), unsigned(held.size()), "length in the frame"); break; }
	case 3: { size_t k = wide(c, 65535); Bytes b = big(c, k), got; unsigned how = unsigned(c.below(3)); c.desc << " item " << k; std::unique_ptr<eip::CommonPacketItem> it; eip::CommonPacketItemFactory f;
		if (judge(c, k <= 65535, "item of " + std::to_string(k) + " bytes", [&] { it = std::make_unique<eip::CommonPacketItem>(how == 0 ? f.createConnectedDataItem(b) : how == 1 ? f.createUnconnectedDataItem(b) : eip::CommonPacketItem(eip::CommonPacketItemIds(0x8000), b)); })) { expectEq(c, size_t(it->getLength()), k, "length of the item"); expectEq(c, it->pack(), wire::W().u16(how == 0 ? 0xB1 : how == 1 ? 0xB2 : 0x8000).u16(k).raw(b).b, "encoded item"); } break; }
	case 4: { if (!c.oneIn(8)) break; size_t k = 65533 + c.below(6); if (c.oneIn(4)) k = 131072 + c.below(3); c.desc << " packet of " << k; eip::CommonPacket p; eip::CommonPacketItem it(eip::CommonPacketItemIds(0x8001), c.bytes(c.below(3))); for (size_t q = 0; q < k; ++q) p << it; Bytes got; if (judge(c, k <= 65535, "packet of " + std::to_string(k) + " items", [&] { got = p.pack(); })) { expectEq(c, unsigned(got[0] + 256u * got[1]), unsigned(k), "item count"); expectEq(c, got.size(), 2 + k * (4 + it.getData().size()), "size of the packet"); } break; }
	case 5: { bool lng = c.oneIn(3); size_t limit = lng ? 65535 : 255, k = wide(c, limit); Bytes b = big(c, k); std::string s(b.begin(), b.end()); bool text = c.coin(); c.desc << (lng ? " string " : " short string ") << k; utils::Buffer buf;
		if (judge(c, k <= limit, "string of " + std::to_string(k) + " characters", [&] { if (lng) { cip::CipString x = text ? cip::CipString(s) : cip::CipString(b); buf << x; expectEq(c, x.toStdString(), s, "text"); } else { cip::CipShortString x = text ? cip::CipShortString(s) : cip::CipShortString(b); buf << x; expectEq(c, x.toStdString(), s, "text"); } })) { wire::W w; if (lng) w.u16(k); else w.u8(k); expectEq(c, buf.data(), w.raw(b).b, "encoded string"); } break; }
	case 6: { using B = cip::connectionManager::NetworkConnectionParametersBuilder; bool large = c.oneIn(3); uint32_t init = large ? c.u32() : c.u16(); size_t limit = large ? 65535 : 511; uint16_t k = uint16_t(std::min<size_t>(65535, wide(c, limit))); c.desc << " size " << k << (large ? " large" : " small"); B b(init, large); if (judge(c, k <= limit, "connection size " + std::to_string(k), [&] { b.setConnectionSize(k); })) init = (init & ~uint32_t(limit)) | k; expectEq(c, uint32_t(b.build()), init, "parameters after setting the size"); break; }
	case 7: { long port = c.coin() ? long(wide(c, 65535)) : long(c.below(70000)) - 35000; c.desc << " port " << port; std::unique_ptr<sockets::EndPoint> e; if (judge(c, port >= 0 && port <= 65535, "port " + std::to_string(port), [&] { e = std::make_unique<sockets::EndPoint>("10.1.2.3", int(port)); })) { expectEq(c, long(e->getPort()), port, "port"); expectEq(c, long(ntohs(e->getAddr().sin_port)), port, "port in the address"); } break; }
	default: { size_t k = 2 * wide(c, 255); Bytes b = big(c, k), got; cip::connectionManager::ForwardCloseRequest r; r.setConnectionPath(b); c.desc << " close path " << k; if (judge(c, k <= 510, "close with a path of " + std::to_string(k) + " bytes", [&] { got = r.pack(); })) expectEq(c, got, wire::W().zeros(10).u8(k / 2).u8(0).raw(b).b, "close request"); break; }
	}
}

void opens(Case& c) {
	World w(c, 2); unsigned n = 1 + unsigned(c.below(4)); c.label("opening I/O connections"); std::vector<Bytes> out;
	auto produce = [&] { // every open connection produces its data
		w.n.advance(10000); w.handle(0); std::map<Conn*, Bytes> got; for (auto& t : w.sentNow()) { EXPECT(c, !got.count(t.first), "two datagrams of one connection"); got[t.first] = t.second.data; }
		for (size_t i = 0; i < w.conns.size(); ++i) if (w.conns[i]->open) { auto it = got.find(w.conns[i].get()); size_t whole = 18 + (w.conns[i]->counted() ? 2 : 0) + (w.conns[i]->p.o2tRealTimeFormat ? 4 : 0) + out[i].size(); if (whole > 65507) { EXPECT(c, it == got.end(), "a datagram of " << whole << " bytes cannot have been sent"); c.label("output too large for a datagram"); continue; } EXPECT(c, it != got.end(), "connection #" << i << " produced nothing"); expectEq(c, it->second, out[i], "data produced"); } };
	for (unsigned i = 0; i < n; ++i) {
		unsigned what = unsigned(c.below(6)); // 0 nothing special; 1 path; 2 o2t size; 3 t2o size; 4 wide parameters; 5 multiplier (any of them may hit as well)
		unsigned also = c.oneIn(6) ? unsigned(c.below(6)) : what; size_t path = 0; bool setPath = false, setO = false, setT = false; uint32_t so = 0, st = 0, hiO = 0, hiT = 0; unsigned mult = unsigned(c.below(8));
		Conn k; k.target = unsigned(c.below(w.targets.size())); k.p = w.params(k, true); k.p.connectionPath.resize(std::min<size_t>(k.p.connectionPath.size(), 24)); if (what != 2 && what != 3) { k.o2t.size %= 400; k.t2o.size %= 400; }
		auto apply = [&](unsigned x) { size_t lim = k.large ? 65535 : 511;
			if (x == 1) { setPath = true; path = 2 * wide(c, 255); } if (x == 2) { setO = true; so = uint32_t(std::min(lim, lim - 8 + c.below(9))); } if (x == 3) { setT = true; st = uint32_t(std::min(lim, lim - 8 + c.below(9))); }
			if (x == 4 && !k.large) { if (c.coin()) hiO = 1u << (16 + c.below(16)); else hiT = uint32_t(1 + c.below(65535)) << 16; } if (x == 5) mult = c.coin() ? unsigned(c.below(9)) : unsigned(c.u8()); };
		apply(what); if (also != what) apply(also);
		if (setO) k.o2t.size = so; else if (!k.large) k.o2t.size = std::min(k.o2t.size, 505u); if (setT) k.t2o.size = st; else if (!k.large) k.t2o.size = std::min(k.t2o.size, 505u); if (setPath) k.p.connectionPath = big(c, path);
		k.p.connectionTimeoutMultiplier = uint8_t(mult); uint32_t lim = k.large ? 65535 : 511, ho = (k.counted() ? 2 : 0) + (k.p.o2tRealTimeFormat ? 4 : 0), ht = (k.counted() ? 2 : 0) + (k.p.t2oRealTimeFormat ? 4 : 0);
		bool fits = k.p.connectionPath.size() <= 510 && k.o2t.size + ho <= lim && k.t2o.size + ht <= lim && !hiO && !hiT && mult <= 7;
		k.p.o2tNetworkConnectionParams = packNcp(k.o2t, k.large) | hiO; k.p.t2oNetworkConnectionParams = packNcp(k.t2o, k.large) | hiT;
		std::ostringstream what2; what2 << "open" << (k.large ? " large" : "") << " sizes " << k.o2t.size << "+" << ho << "/" << k.t2o.size << "+" << ht << " path " << k.p.connectionPath.size() << " multiplier " << mult << std::hex << " params " << k.p.o2tNetworkConnectionParams << "/" << k.p.t2oNetworkConnectionParams;
		if (fits) { c.desc << " [fits]"; ++seen.fit; c.label("fits"); c.nontrivial(); Conn& r = w.open(true, [&](Conn& q) { q.large = k.large; q.o2t = k.o2t; q.t2o = k.t2o; q.p = k.p; q.target = k.target; q.o2tApi = 10000; }); out.push_back(big(c, r.o2t.size)); if (auto p = w.lock(r)) p->setDataToSend(out.back()); }
		else { c.desc << " [" << what2.str() << "]"; auto d = w.targets[k.target]; d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); r.data = wire::W().u32(7).u32(8).u16(1).u16(1).u32(1).u32(10000).u32(10000).u8(0).u8(0).b; return r; }; size_t before = d->log.size(), socks = w.n.socks.size(); bool had = w.m->hasOpenConnections(); IOConnection::WPtr h;
			judge(c, false, what2.str(), [&] { h = w.call(k); }); EXPECT(c, h.expired(), "a refused open gave a connection"); expectEq(c, d->log.size(), before, "requests sent for a refused open"); expectEq(c, w.n.socks.size(), socks, "sockets made for a refused open"); EXPECT(c, w.m->hasOpenConnections() == had, "open connections changed by a refused open"); }
		// outputs of variable size may be set to anything
		for (size_t q = 0; q < w.conns.size(); ++q) if (w.conns[q]->o2t.variable && c.oneIn(3)) { Conn& r = *w.conns[q]; size_t over = 18 + (r.counted() ? 2 : 0) + (r.p.o2tRealTimeFormat ? 4 : 0); out[q] = big(c, c.coin() ? c.below(30) : wide(c, c.coin() ? 65507 - over : 65535, 8)); c.desc << " out#" << q << "=" << out[q].size(); if (auto p = w.lock(r)) p->setDataToSend(out[q]); }
		if (c.coin()) produce(); else { w.n.advance(10000); w.handle(0); w.sentNow(); }
	}
	for (size_t q = 0; q < w.conns.size(); ++q) if (w.conns[q]->o2t.variable) { out[q] = c.bytes(3); if (auto p = w.lock(*w.conns[q])) p->setDataToSend(out[q]); }
	produce(); for (auto& k : w.conns) if (c.coin()) w.close(*k); w.checkOpen(); w.finish();
}

void run(Case& c) {
	seen = Result();
	switch (c.below(6)) { case 0: requests(c, false); break; case 1: requests(c, true); break; case 2: objects(c); break; case 3: codec(c); break; default: opens(c); }
}
}
extern const Property pbt::theProperty = {"C27",
	"Values around (just below, at, just above, far above, wrapping to a small value) the limit of the field they travel in: path ids in the 8-bit form (encoders, standard requests, identity/parameter/file objects), request data, extra items and item counts up to and over 65535 bytes through both routers, over a scripted and over a TCP session; payloads, items, strings, connection sizes, ports, close paths; I/O opens whose path, size with headers, small-form parameters or timeout multiplier fit or not, between connections that keep producing; outputs around the largest datagram. Oracle: independent arithmetic decides what fits; that is encoded exactly and works, everything else is refused with an exception derived from std::runtime_error, with nothing sent, no socket made, objects unchanged and later good operations working. Non-trivial: at least one decision was judged.",
	run, 256, 60000, 1500000, 400, 30000};
