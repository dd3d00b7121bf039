// C09: forward-open / forward-close requests and the life of a connection.
#include "io.h"
#include <system_error>
using namespace io; using namespace eipScanner;

namespace {
// a device that is out of reach: notes the serial number of each open and fails
struct Away : SessionInfoIf {
	mutable uint16_t serial = 0; mutable bool got = false;
	eip::EncapsPacket sendAndReceive(const eip::EncapsPacket& p) const override {
		const auto& d = p.getData(); const size_t req = 6 + 2 + 4 + 4; // interface and timeout, item count, two item headers
		const size_t at = req + 2 + (d.size() > req + 1 ? 2 * d[req + 1] : 0) + 2 + 8; // service and path, ticks, ids
		got = d.size() > at + 1; if (got) serial = uint16_t(d[at] | d[at + 1] << 8);
		throw std::system_error(EHOSTUNREACH, std::generic_category()); }
	cip::CipUdint getSessionHandle() const override { return 1; }
	sockets::EndPoint getRemoteEndPoint() const override { return {"10.0.0.1", 44818}; }
};
void run(Case& c) {
	World w(c); unsigned steps = 1 + unsigned(c.below(12)), opens = 0; std::set<uint32_t> serials, t2o, o2t; uint32_t lastT2O = 0;
	EXPECT(c, !w.m->hasOpenConnections(), "a new manager reports open connections");
	auto fresh = [&](const Conn& k, const Fwd& f) {
		EXPECT(c, serials.insert(f.serial).second, "connection serial number " << f.serial << " was used before");
		if (k.t2o.type == 2) { EXPECT(c, t2o.insert(f.t2oId).second, "T->O connection id " << f.t2oId << " was used before"); lastT2O = f.t2oId;
			for (auto& o : w.conns) if (o.get() != &k && o->open) EXPECT(c, o->t2oId != f.t2oId, "T->O connection id " << f.t2oId << " is that of another open connection"); }
		if (k.o2t.type == 1) EXPECT(c, o2t.insert(f.o2tId).second, "O->T connection id " << f.o2tId << " was used before");
	};
	if (c.oneIn(3000)) { // a long-lived originator: serial numbers and ids stay fresh over hundreds of opens
		unsigned n = 260 + unsigned(c.below(400)); c.desc << " " << n << " opens and closes"; c.label("hundreds of opens on one manager"); ++opens;
		for (unsigned i = 0; i < n; ++i) { Conn& k = w.open(true, [&](Conn& q) { if (q.o2t.size > 2000) q.o2t.size = 40; }); fresh(k, k.req); if (!c.oneIn(20) || w.openConns() > 12) { w.close(k); k.held.reset(); EXPECT(c, k.w.expired(), "the closed connection is still alive"); } w.checkOpen(); }
	}
	if (c.oneIn(5000)) { // an originator so long-lived that its 16-bit serial numbers start over while connections are still open
		std::set<uint32_t> open; unsigned keep = 1 + unsigned(c.below(3)); c.desc << " more than 65536 opens"; c.label("serial numbers start over"); ++opens;
		for (unsigned i = 0; i < keep; ++i) { Conn& k = w.open(true); fresh(k, k.req); if (k.serial == k.req.serial) open.insert(k.serial); }
		auto away = std::make_shared<Away>(); Params p = w.params(*w.conns[0], false); p.o2tNetworkConnectionParams = p.t2oNetworkConnectionParams = packNcp({}, false); p.connectionPath.resize(4); unsigned n = 65536 + unsigned(c.below(8));
		for (unsigned i = 0; i < n; ++i) { away->got = false; try { w.m->forwardOpen(away, p); EXPECT(c, false, "an open that failed to reach the device succeeded"); } catch (const std::system_error&) {}
			EXPECT(c, away->got, "no open request was sent"); EXPECT(c, !open.count(away->serial), "connection serial number " << away->serial << " is that of another open connection"); }
		w.checkOpen(); serials = open;
	}
	for (unsigned i = 0; i < steps; ++i) { switch (c.below(6)) {
	case 0: case 1: { // accepted
		Conn& k = w.open(true, [&](Conn& q) { q.o2tApi = uint32_t(1000 + c.below(100000)); q.t2oApi = uint32_t(c.oneIn(3) ? 1000 + c.below(100000) : 0xffffffffu); if (Conn* o = c.oneIn(5) ? w.producer() : nullptr) World::join(q, *o);
			else if (lastT2O && c.oneIn(6)) { uint32_t id = lastT2O + 1 + uint32_t(c.below(3)); if (w.usedT2O.insert(id).second) { q.t2oId = id; q.t2o.type = 1; c.label("a device chose an id next to the originator's"); } } });
		fresh(k, k.req); ++opens; c.label("accepted"); for (auto& o : w.conns) if (o.get() != &k && o->open && o->t2oId == k.t2oId) c.label("joined another connection's production"); break; }
	case 2: { // refused or malformed acceptance
		auto kp = std::make_unique<Conn>(); Conn& k = *kp; k.target = unsigned(c.below(w.targets.size())); k.p = w.params(k, true); if (c.oneIn(4)) k.p.connectionPath.push_back(c.u8());
		auto d = w.targets[k.target]; size_t before = d->log.size(), socks = w.n.openCount(); unsigned kind = unsigned(c.below(5)); k.o2tId = c.u32(); k.t2oId = w.freshT2O(); k.o2tApi = c.u32(); k.t2oApi = c.u32();
		d->onRaw = [&](const dev::Exchange& x) {
			k.req = decodeOpen(c, x.req.data, k.large); k.serial = k.req.serial; wire::Reply r; r.service = uint8_t(x.req.service | 0x80); Bytes app = c.bytes(2 * c.below(5)); Bytes acc = w.acceptance(k, app);
			if (kind <= 1) { r.status = dev::errorStatus(c); for (size_t q = c.below(3); q; --q) r.ext.push_back(c.u16()); r.data = c.coin() ? acc : c.bytesUpTo(20, {0, 10}); return wire::rrReply(r); }
			r.data = acc;
			if (kind == 2) { r.data.resize(c.below(acc.size())); return wire::rrReply(r); }
			if (kind == 3) { r.items.push_back({0x8000, wire::sockaddr(c.u32(), c.u16())}); r.items.back().data.resize(c.below(8)); return wire::rrReply(r); }
			Bytes raw = wire::rrReply(r); raw.resize(c.below(raw.size() - acc.size())); return raw; };
		IOConnection::WPtr got; c.desc << (kind <= 1 ? " refused open" : kind == 2 ? " acceptance cut" : kind == 3 ? " socket address cut" : " reply cut");
		if (kind <= 1) { mustPass(c, "refused open", [&] { got = w.call(k); }); EXPECT(c, got.expired(), "a refused open gave a live handle"); c.label("refused"); }
		else { mustThrow(c, "malformed acceptance", [&] { got = w.call(k); }); EXPECT(c, got.expired(), "a malformed acceptance gave a live handle"); c.label("malformed acceptance"); }
		d->onRaw = nullptr; expectEq(c, d->log.size(), before + 1, "requests of one open"); w.checkRequest(k, d->log.back()); fresh(k, k.req); (void)socks; w.usedT2O.erase(k.t2oId); ++opens;
		break; }
	case 3: { // the session fails
		auto kp = std::make_unique<Conn>(); Conn& k = *kp; k.target = 0; k.p = w.params(k, true); auto d = w.targets[0]; int err = c.pick({EAGAIN, EPIPE, ECONNRESET});
		d->before = [&] { throw std::system_error(err, std::generic_category()); }; bool same = false;
		try { w.call(k); } catch (const std::system_error& e) { same = e.code().value() == err; }
		d->before = nullptr; EXPECT(c, same, "the session's error did not reach the caller"); c.desc << " session error"; c.label("session error"); break; }
	case 4: if (!w.conns.empty()) { // close, possibly twice
		Conn& k = *w.conns[c.below(w.conns.size())]; bool was = k.open; auto d = w.targets[k.target];
		if (was && c.oneIn(4)) { // malformed answer: the connection is gone all the same
			d->onRaw = [&](const dev::Exchange&) { return c.bytesUpTo(12); }; c.desc << " close(malformed answer)"; c.label("close with malformed answer"); size_t before = d->log.size();
			guarded(c, "close with a malformed answer", [&] { if (k.held) w.m->forwardClose(d, k.held); else w.m->forwardClose(d, k.w); }); d->onRaw = nullptr;
			expectEq(c, d->log.size(), before + 1, "requests of one close"); w.checkClose(k, d->log.back()); k.open = false;
		} else { c.desc << (was ? " close" : " close again"); if (!was) c.label("closed twice"); size_t before = d->log.size(); bool held = k.held != nullptr; w.close(k);
			if (!was && !held) EXPECT(c, d->log.size() == before, "closing a closed connection sent a request"); if (was) c.label("closed"); }
		if (!k.held) EXPECT(c, k.w.expired(), "the handle of a closed connection is still alive");
		k.held.reset(); EXPECT(c, k.w.expired(), "the closed connection is still alive");
		EXPECT(c, k.closes == 0 || !was, "the close listener ran although the connection was closed by the user"); break; }
		break;
	case 5: { // time passes
		uint64_t us = c.below(c.oneIn(4) ? 2000000 : 30000); w.n.advance(us); c.desc << " +" << us << "us"; w.handle(c.below(5));
		for (auto& k : w.conns) if (k->open && w.n.nowUs - k->lastAcc > k->limit()) { k->open = false; c.label("timed out"); }
		for (auto& t : w.sentNow()) EXPECT(c, t.first->open, "data was sent for a connection that is not open");
		break; }
	} w.checkOpen(); }
	if (opens) c.nontrivial();
	w.finish();
}
}
extern const Property pbt::theProperty = {"C09",
	"Histories of up to 12 steps on one manager and 1-3 scripted targets: opens (normal and large form, all parameters random, sizes kept so the grown size fits its field) that are accepted, refused with any status, answered with cut acceptances, cut socket addresses or cut replies, or hit a session error; closes with any answer, repeated closes with held and unheld handles, time passing with handling and timeouts; about one case in 3000 starts with 260-660 opens, one in 5000 with more than 65536 while up to 3 connections stay open; devices also choose T->O ids next to the last one the originator chose. Oracle: independent decoding of every request field, freshness sets for serials and ids, the open-connection count, handle liveness. Non-trivial: at least one open reached a device.",
	run, 256, 60000, 1500000, 1200, 30000};
