// C23: end to end, every reply belongs to its request.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include <memory>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;

namespace {
struct Peer : sim::TcpPeer {
	Bytes frame; int fd = -1; bool closed = false; std::function<void(const wire::Encaps&)> onFrame;
	void onData(int f, const Bytes& d) override { fd = f; frame.insert(frame.end(), d.begin(), d.end());
		while (frame.size() >= 24) { size_t len = 24 + frame[2] + 256u * frame[3]; if (frame.size() < len) break; Bytes one(frame.begin(), frame.begin() + long(len)); frame.erase(frame.begin(), frame.begin() + long(len)); wire::Encaps e; wire::parse(one, e); if (onFrame) onFrame(e); } }
	void onClose(int) override { closed = true; }
};
struct Sess { std::shared_ptr<SessionInfo> s; std::shared_ptr<Peer> peer; uint32_t handle = 0, ip = 0; uint64_t timeout = 1000; bool failed = false; uint64_t busyUntil = 0; };
enum When { NOW, SPLIT, LATE, PARTLY_LATE, NEVER, FIN, REFUSED, WHEN_COUNT };
const char* whenName[] = {"answered at once", "answered in pieces", "answered after the timeout", "rest of the answer after the timeout", "never answered", "closed in the answer", "refused by the encapsulation layer"};

void run(Case& c) {
	sim::Scope sc; auto& n = sc.n; sim::vary(c, n); std::vector<Sess> ss(1 + c.below(3)); uint32_t tag = uint32_t(c.below(1000)) << 8, handles = 0; unsigned late = 0, okAfter = 0; (void)okAfter;
	MessageRouter mr; ConnectionManager cm; std::vector<IOConnection::WPtr> ios; std::vector<std::pair<uint32_t, uint32_t>> ids; // granted O->T id, host
	auto connect = [&](Sess& s, size_t i) {
		s.peer = std::make_shared<Peer>(); s.ip = sim::ip(10, 0, 0, uint8_t(1 + (c.coin() ? 0 : i))); s.timeout = 20 + c.below(500); s.failed = false; s.busyUntil = 0; s.handle = 0x100 + ++handles; Sess* sp = &s;
		n.onConnect = [](uint32_t, uint16_t) { return sim::ConnectPlan(); }; auto peer = s.peer; n.onAccepted = [peer](int) { return peer; };
		peer->onFrame = [sp, &n](const wire::Encaps&) { n.tcpSend(sp->peer->fd, 0, wire::encaps(0x65, sp->handle, 0, wire::W().u16(1).u16(0).b)); };
		mustPass(c, "opening a session", [&] { s.s = std::make_shared<SessionInfo>(sim::ipText(s.ip), 44818, milliseconds(s.timeout)); }); peer->onFrame = nullptr; };
	for (size_t i = 0; i < ss.size(); ++i) connect(ss[i], i);
	unsigned steps = 2 + unsigned(c.below(12));
	for (unsigned st = 0; st < steps; ++st) {
		size_t si = c.below(ss.size()); Sess& s = ss[si]; unsigned op = unsigned(c.below(8));
		if (op == 0) { uint64_t us = c.below(s.timeout * 3000); c.desc << " +" << us << "us"; n.advance(us); continue; }
		if (op == 1 && (s.failed || c.oneIn(4))) { c.desc << " reopen#" << si; c.label("session opened again"); s.s.reset(); connect(s, si); continue; }
		When w = c.coin() ? NOW : When(c.below(WHEN_COUNT)); uint32_t my = ++tag; unsigned kind = unsigned(c.below(4)); // 0,1: request, 2: identity, 3: forward open
		c.desc << " #" << si << (kind < 2 ? " request" : kind == 2 ? " identity" : " open") << " <" << whenName[w] << ">"; c.label(whenName[w]); if (s.failed) c.label("exchange on a session with a failed exchange");
		unsigned served = 0; bool wrong = false; Sess* sp = &s; Bytes blob = c.bytesUpTo(200); uint8_t service = uint8_t(1 + c.below(0x70)); uint64_t to = s.timeout * 1000;
		s.peer->onFrame = [&, sp, my, w, blob, service, to, kind](const wire::Encaps& e) {
			if (e.cmd != 0x6F) return; ++served; std::vector<wire::Item> items; wire::R r(e.data); r.take(6); Bytes rest = r.rest(); wire::Request q;
			if (e.handle != sp->handle || !wire::parseItems(rest, items) || items.size() != 2 || !wire::parseRequest(items[1].data, q)) { wrong = true; return; }
			wire::Reply rep; rep.service = q.service | 0x80;
			if (kind < 2) rep.data = wire::W().u32(my).raw(blob).b;
			else if (kind == 2) rep.data = wire::W().u16(my & 0xffff).u16(2).u16(3).u8(1).u8(2).u16(0).u32(my).shortStr("device " + std::to_string(my)).b;
			else rep.data = wire::W().u32(my).u32(my ^ 0x55000000).u16(wire::R(Bytes(q.data.begin() + 10, q.data.begin() + 12)).u16()).u16(0).u32(0).u32(1000).u32(0xffffffffu).u8(0).u8(0).b;
			Bytes f = wire::encaps(0x6F, sp->handle, w == REFUSED ? 1 + uint32_t(c.below(0x65)) : 0, wire::rrReply(rep)); size_t cut = 1 + c.below(f.size() - 1); Bytes a(f.begin(), f.begin() + long(cut)), b(f.begin() + long(cut), f.end());
			// a device answers in order: nothing overtakes an answer still under way
			uint64_t base = sp->busyUntil > n.nowUs ? sp->busyUntil - n.nowUs : 0, d = 0;
			switch (w) {
			case NOW: case REFUSED: n.tcpSend(sp->peer->fd, d = base, f); break;
			case SPLIT: n.tcpSend(sp->peer->fd, base, a); n.tcpSend(sp->peer->fd, d = base + c.below(to / 2), b); break;
			case LATE: n.tcpSend(sp->peer->fd, d = base + to + 1 + c.below(to * 3), f); ++late; break;
			case PARTLY_LATE: n.tcpSend(sp->peer->fd, base, a); n.tcpSend(sp->peer->fd, d = base + to + 1 + c.below(to * 3), b); ++late; break;
			case FIN: n.tcpSend(sp->peer->fd, base, a); n.seg(sp->peer->fd, d = base, {}, sim::Seg::FIN); break;
			default: break; }
			sp->busyUntil = n.nowUs + d; };
		bool must = !s.failed && (w == NOW || w == SPLIT), mustNot = w == LATE || w == PARTLY_LATE || w == NEVER || w == FIN || w == REFUSED; Outcome o; std::string text;
		if (kind < 2) { cip::MessageRouterResponse resp; Bytes data = c.bytesUpTo(100);
			o = guarded(c, "request", [&] { resp = mr.sendRequest(s.s, service, cip::EPath(cip::CipUint(1 + c.below(300)), cip::CipUint(c.below(300))), data); }, &text);
			if (o == Outcome::OK) { expectEq(c, resp.getData(), wire::W().u32(my).raw(blob).b, "data of the reply"); expectEq(c, unsigned(resp.getServiceCode()), unsigned(service | 0x80), "service of the reply"); } }
		else if (kind == 2) { std::unique_ptr<IdentityObject> id; o = guarded(c, "identity", [&] { id = std::make_unique<IdentityObject>(1, s.s); }, &text);
			if (o == Outcome::OK) { expectEq(c, id->getSerialNumber(), my, "serial number of the identity"); expectEq(c, id->getProductName(), "device " + std::to_string(my), "name of the identity"); } }
		else { cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, 1}; p.t2oNetworkConnectionParams = 0x4000; p.o2tNetworkConnectionParams = 0x4000 | 4; p.transportTypeTrigger = 1; p.originatorVendorId = 1; IOConnection::WPtr io; uint32_t ip = s.ip;
			o = guarded(c, "forward open", [&] { io = cm.forwardOpen(s.s, p); }, &text); size_t before = n.sent.size();
			if (o == Outcome::OK) { auto k = io.lock(); EXPECT(c, k, "no connection after an accepted open"); k->setDataToSend(Bytes(4, 7)); n.advance(1000); ids.push_back({my, ip}); ios.push_back(io);
				mustPass(c, "handling", [&] { cm.handleConnections(milliseconds(0)); }); bool seen = false;
				for (size_t i = before; i < n.sent.size(); ++i) { std::vector<wire::Item> it; EXPECT(c, wire::parseItems(n.sent[i].data, it) && it.size() == 2, "malformed datagram"); uint32_t id = wire::R(it[0].data).u32(); bool known = false; for (auto& x : ids) if (x.first == id) { known = true; EXPECT(c, n.sent[i].ip == x.second && n.sent[i].port == 2222, "data of a connection was sent to another device"); } EXPECT(c, known, "datagram with an id nobody granted to this open"); seen |= id == my; }
				EXPECT(c, seen, "the connection does not send with the id granted to it"); } }
		EXPECT(c, !wrong, "the device got a malformed or foreign request");
		if (must) EXPECT(c, o == Outcome::OK, "the exchange failed: " << text); if (mustNot) EXPECT(c, o != Outcome::OK, "an exchange without its reply succeeded");
		if (must) EXPECT(c, served == 1, "the device was asked " << served << " times"); else EXPECT(c, served <= 1, "the device was asked " << served << " times");
		if (o != Outcome::OK && w != REFUSED) s.failed = true;
		if (o == Outcome::OK && s.failed) c.label("a failed session recovered");
		s.peer->onFrame = nullptr;
	}
	if (late || ss.size() > 1) c.nontrivial(); if (late) c.label("late replies");
	ios.clear(); for (auto& s : ss) s.s.reset();
}
}
extern const Property pbt::theProperty = {"C23",
	"1-3 real sessions (several to one device with probability 1/2) on the simulated network; up to 13 steps of explicit requests, identity read-outs and forward opens, each answered at once, in pieces, after the timeout, partly after the timeout, never, refused, or with the connection closed inside; time passing and sessions opened again in between; every answer carries a number unique to its request. Oracle: a successful call returned its own answer, an exchange without its answer failed, an exchange answered in time on a healthy session succeeded after exactly one request, I/O data goes out with the id and to the host of its own open. Non-trivial: an answer was late or several sessions were in use.",
	run, 256, 60000, 1500000, 800, 30000};
