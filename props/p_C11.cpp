// C11: cyclic input data.
#include "io.h"
using namespace io;

namespace {
struct Want { Conn* k; Rx rx; };

void run(Case& c) {
	World w(c); unsigned good = 0, junk = 0;
	if (c.oneIn(20)) { c.desc << "handling without connections;"; c.label("no connection was ever opened"); w.handle(c.below(50)); w.handle(0); }
	unsigned nc = 1 + unsigned(c.below(4)), socks = 0; std::map<Conn*, std::vector<Rx>> want; std::map<Conn*, unsigned> sock;
	bool drained = !c.oneIn(3); if (!drained) c.label("connections open while data waits to be handled");
	auto add = [&] {
		Conn& k = w.open(false, [&](Conn& q) { q.o2tApi = 0xffffffffu; q.t2oApi = 0xffffffffu; if (q.t2o.size > 2000 && c.coin()) q.t2o.size = 40; if (q.t2o.size > 60000) q.t2o.size = 60000; if (Conn* o = drained && c.oneIn(3) ? w.producer() : nullptr) { World::join(q, *o); c.label("connections share one production"); c.desc << " shared"; if (!q.t2o.variable) switch (c.below(6)) { case 0: q.t2o.size += q.t2o.size < 60 ? 1 : 0; break; case 1: q.p.t2oRealTimeFormat = !q.p.t2oRealTimeFormat; break; case 2: q.p.transportTypeTrigger ^= 1; break; default: break; } } });
		Conn* kk = &k; sock[kk] = drained ? unsigned(c.below(8)) : 0; for (auto& o : w.conns) if (o.get() != kk && o->t2oId == k.t2oId) sock[kk] = sock[o.get()]; // one socket, one order
		if (auto p = w.lock(k)) { if (c.oneIn(8)) p->setReceiveDataListener([](auto...) { pbt::abortCase("the replaced listener was called"); });
			p->setReceiveDataListener([kk, &w](uint32_t h, uint16_t s, const Bytes& b) { kk->rx.push_back({h, s, b, w.n.nowUs}); }); }
		return kk; };
	for (unsigned i = 0; i < nc; ++i) add();
	socks = unsigned(w.n.boundCount(2222)); EXPECT(c, socks >= 1, "no socket is bound to port 2222 after opening a connection");
	unsigned steps = 1 + unsigned(c.below(14)); uint64_t lastAt = 0;
	auto drain = [&] { if (lastAt > w.n.nowUs) w.n.advanceTo(lastAt); w.handle(0); };
	for (unsigned i = 0; i < steps; ++i) {
		unsigned op = unsigned(c.below(16));
		if (op == 14) { Conn& k = *w.conns[c.below(w.conns.size())]; if (k.open) { drain(); c.desc << " close"; c.label("a connection is closed"); w.close(k); k.held.reset(); } continue; }
		if (op == 15) { if (w.conns.size() < 7) { if (drained) drain(); add(); } continue; }
		if (op >= 12) { uint64_t ms = c.below(30); c.desc << " handle(" << ms << ")"; w.handle(ms); continue; }
		Conn& k = *w.conns[c.below(w.conns.size())]; uint16_t seq = c.u16(); uint32_t hdr = c.u32(), sn = c.u32();
		// all datagrams are queued now or arrive during the next handling call
		uint64_t delay = c.coin() ? 0 : c.below(20000); unsigned which = sock[&k];
		Bytes data = c.bytes(k.t2o.variable ? c.size(k.t2o.size, {0, 1, k.t2o.size}) : k.t2o.size); Bytes payload = w.t2oPayload(k, seq, hdr, data); Bytes d = World::datagram(k.t2oId, sn, payload);
		unsigned kind = op < 7 ? 0 : 1 + unsigned(c.below(7)); bool whole = false; // a complete datagram with k's id
		switch (kind) {
		case 0: whole = true; c.desc << " data"; if (!k.open) c.label("data for a closed connection"); break;
		case 1: { uint32_t id; do { id = c.coin() ? k.t2oId ^ (uint32_t(1 + c.below(65535)) << 16) : c.coin() ? k.t2oId ^ (1u << c.below(32)) : c.u32(); } while (w.usedT2O.count(id) && !c.src.exhausted()); if (w.usedT2O.count(id)) continue; w.usedT2O.insert(id); d = World::datagram(id, sn, payload); c.desc << " unknown-id"; c.label("unknown connection id"); break; }
		case 2: d.resize(c.below(d.size())); c.desc << " cut@" << d.size(); c.label("truncated datagram"); break;
		case 3: d = c.bytesUpTo(100, {0, 1, 2, 6, 18}); if (d.size() >= 4 && ((d[2] == 2 && d[3] == 0x80) || (d[2] == 0xA1 && d[3] == 0))) d[2] = 0x55; c.desc << " garbage"; c.label("random bytes"); break;
		case 4: { unsigned n = unsigned(c.below(2)); std::vector<wire::Item> it{{0x8002, wire::W().u32(k.t2oId).u32(sn).b}, {0x00B1, payload}}; if (n && c.coin()) std::swap(it[0], it[1]); it.resize(n); d = wire::packItems(it); c.desc << " fewer-items"; c.label("missing item"); break; }
		case 5: { Bytes a = wire::W().u32(k.t2oId).u32(sn).b; a.resize(c.below(4)); d = wire::packItems({{0x8002, a}, {0x00B1, payload}}); c.desc << " short-address"; c.label("short address item"); break; }
		case 6: { size_t need = (k.counted() ? 2u : 0u) + (k.p.t2oRealTimeFormat ? 4u : 0u); if (!need) continue; payload.resize(c.below(need)); d = World::datagram(k.t2oId, sn, payload); whole = true; c.desc << " short-headers"; c.label("headers cut"); break; }
		case 7: { if (k.t2o.variable) continue; size_t s; do { s = c.coin() ? k.t2o.size + 1 + c.below(4) : c.size(k.t2o.size + 10); } while (s == k.t2o.size && !c.src.exhausted()); if (s == k.t2o.size) ++s; payload = w.t2oPayload(k, seq, hdr, c.bytes(s)); d = World::datagram(k.t2oId, sn, payload); whole = true; c.desc << " wrong-size " << s << "/" << k.t2o.size; c.label("size differs from the negotiated size"); break; }
		}
		if (d.size() > 65507) continue;
		// same socket and arrival instant order per connection: a later datagram never overtakes an earlier one
		uint64_t at = std::max(w.n.nowUs + delay, lastAt); lastAt = at;
		w.arrive(at - w.n.nowUs, d, which);
		bool taken = false;
		if (whole) for (auto& o : w.conns) { Rx r{}; if (o->open && o->t2oId == k.t2oId && World::takes(*o, payload, r)) { want[o.get()].push_back(r); taken = true; } }
		++(taken ? good : junk);
		if (c.oneIn(3)) w.handle(c.below(10));
	}
	w.handle(25); w.handle(25); w.handle(0);
	w.n.advance(100000); w.handle(5);
	for (auto& kp : w.conns) {
		auto& v = want[kp.get()]; auto& g = kp->rx; size_t idx = size_t(&kp - &w.conns[0]);
		for (size_t i = 0; i < std::min(v.size(), g.size()); ++i) { std::string at = "connection #" + std::to_string(idx) + " datagram " + std::to_string(i);
			expectEq(c, g[i].data, v[i].data, at + ": application data"); expectEq(c, g[i].seq, v[i].seq, at + ": sequence count"); expectEq(c, g[i].header, v[i].header, at + ": real-time header"); }
		EXPECT(c, g.size() == v.size(), "connection #" << idx << " got " << g.size() << " datagrams instead of " << v.size());
		EXPECT(c, kp->closes == 0, "a connection was closed");
	}
	w.checkOpen();
	if (good) c.nontrivial(); if (good && junk) c.label("good and bad datagrams mixed"); if (w.conns.size() > 1) c.label("several connections"); if (socks > 1) c.label("several local sockets");
	w.finish();
}
}
extern const Property pbt::theProperty = {"C11",
	"1-7 connections (class 0-3, with/without real-time header, fixed/variable, normal/large, T->O ids often differing in one bit or one half) to 1-3 hosts; up to 14 steps of datagrams arriving before or during handling calls: good ones (data to 60000 bytes), for closed or unknown ids, cut at any byte, random bytes, missing items, short address items, cut headers, wrong sizes on fixed connections; connections closed and opened in between. Oracle: per-connection list of deliveries (header, sequence count, data), no exception, no close. Non-trivial: at least one good datagram was sent to an open connection.",
	run, 256, 60000, 1500000, 1500, 30000};
