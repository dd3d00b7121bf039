// C13: inactivity timeout.
#include "io.h"
using namespace io;

namespace {
void run(Case& c) {
	World w(c); unsigned timeouts = 0, kept = 0; std::map<Conn*, size_t> rxAtClose; std::map<Conn*, unsigned> sock;
	auto name = [&](Conn* k) { size_t i = 0; while (w.conns[i].get() != k) ++i; return "connection #" + std::to_string(i) + ": "; };
	auto add = [&](uint32_t id, Conn* with = nullptr) {
		Conn& k = w.open(false, [&](Conn& q) {
			q.o2tApi = 1; q.t2oId = id; if (with) { World::join(q, *with); c.label("connections share one production"); c.desc << " shared"; } if (q.o2t.size > 200) q.o2t.size = 20; if (q.t2o.size > 200) q.t2o.size = 20;
			switch (c.below(6)) { case 0: q.t2oApi = 1000; break; case 1: q.t2oApi = uint32_t(1 + c.below(20000)); break; case 2: q.t2oApi = 10000; break; case 3: q.t2oApi = c.u32(); break; case 4: q.t2oApi = 0xffffffffu >> c.below(4); break; default: q.t2oApi = uint32_t(c.below(1000)); } });
		sock[&k] = unsigned(c.below(8));
		if (auto p = w.lock(k)) {
			p->setDataToSend(Bytes(k.o2t.size)); Conn* kk = &k; sim::Net* n = &w.n;
			p->setReceiveDataListener([kk, n](uint32_t h, uint16_t s, const Bytes& b) { kk->rx.push_back({h, s, b, n->nowUs}); kk->lastAcc = n->nowUs; });
		}
		return &k; };
	unsigned nc = 1 + unsigned(c.below(4)); for (unsigned i = 0; i < nc; ++i) add(0, c.oneIn(6) ? w.producer() : nullptr);
	auto handle = [&](uint64_t ms) {
		std::map<Conn*, uint64_t> before; for (auto& k : w.conns) before[k.get()] = k->closes;
		uint64_t t0 = w.n.nowUs; (void)t0;
		w.handle(ms); uint64_t T = w.n.nowUs; std::map<Conn*, unsigned> sent; for (auto& t : w.sentNow()) sent[t.first]++;
		for (auto& kp : w.conns) {
			Conn& k = *kp;
			if (!k.open) { EXPECT(c, !sent.count(&k), name(&k) << "data was sent after it was closed"); EXPECT(c, k.rx.size() == rxAtClose[&k], name(&k) << "data was delivered after it was closed"); EXPECT(c, k.closes == before[&k], name(&k) << "the close listener ran again"); continue; }
			bool must = T - k.lastAcc > k.limit();
			if (must) {
				EXPECT(c, k.closes == 1, name(&k) << "not closed " << T - k.lastAcc << " us after the last data, limit " << k.limit()); EXPECT(c, !sent.count(&k), name(&k) << "data was sent by the call that closed it");
				k.open = false; rxAtClose[&k] = k.rx.size(); ++timeouts; c.label("timed out"); c.desc << " [timeout " << name(&k) << "]";
				if (!k.held) EXPECT(c, k.w.expired(), name(&k) << "the handle of a timed-out connection is still alive");
			} else {
				++kept; EXPECT(c, k.closes == 0, name(&k) << "closed " << T - k.lastAcc << " us after the last data, limit " << k.limit()); EXPECT(c, !k.w.expired(), name(&k) << "the handle of an open connection expired");
				if (T - k.lastProd >= 1) { EXPECT(c, sent[&k] == 1, name(&k) << "an open connection sent " << sent[&k] << " datagrams"); k.lastProd = T; }
			}
		}
		w.checkOpen(); };
	unsigned steps = 2 + unsigned(c.below(24));
	for (unsigned i = 0; i < steps; ++i) {
		Conn& k = *w.conns[c.below(w.conns.size())];
		switch (c.below(12)) {
		case 0: case 1: case 2: { // to the exact limit, 1 us before or after it
			uint64_t at = k.lastAcc + k.limit(); int off = int(c.below(4)) - 1; if (off == 2) off = 1 + int(c.below(1500)); uint64_t t = off < 0 ? (at ? at - 1 : at) : at + uint64_t(off); c.desc << " to limit" << (off >= 0 ? "+" : "") << off; c.label("handled at the exact limit or around it"); if (t > w.n.nowUs) w.n.advanceTo(t); handle(0); break; }
		case 3: { uint64_t us = c.below(c.coin() ? 5000 : 400000); c.desc << " +" << us << "us"; w.n.advance(us); handle(0); break; }
		case 4: { unsigned r = 2 + unsigned(c.below(60)); uint64_t us = 1 + c.below(c.coin() ? 999 : 5000); c.desc << " " << r << "x" << us << "us"; for (unsigned q = 0; q < r; ++q) { w.n.advance(us); handle(0); } break; }
		case 5: { // a long wait during which data arrives
			uint64_t ms = 1 + c.below(300); unsigned r = unsigned(c.below(8)); c.desc << " handle(" << ms << ") with " << r << " datagrams"; c.label("data arrives during a long handling call");
			for (unsigned q = 0; q < r; ++q) { Conn& t = *w.conns[c.below(w.conns.size())]; w.arrive(c.below(ms * 1000 + 1), World::datagram(t.t2oId, c.u32(), w.t2oPayload(t, c.u16(), c.u32(), Bytes(t.t2o.size))), sock[&t]); }
			handle(ms); break; }
		case 6: case 7: { // accepted data now
			c.desc << " data"; w.arrive(0, World::datagram(k.t2oId, c.u32(), w.t2oPayload(k, c.u16(), c.u32(), Bytes(k.t2o.size))), sock[&k]); if (c.coin()) handle(c.below(3)); break; }
		case 8: { // data that must not prolong
			c.desc << " rejected-data"; c.label("rejected data"); Bytes d;
			switch (c.below(3)) { case 0: d = World::datagram(k.t2oId ^ (1u << c.below(32)), 1, w.t2oPayload(k, 1, 1, Bytes(k.t2o.size))); { bool clash = false; for (auto& o : w.conns) clash |= o->t2oId == (uint32_t(d[6]) | uint32_t(d[7]) << 8 | uint32_t(d[8]) << 16 | uint32_t(d[9]) << 24); if (clash) continue; } break;
				case 1: d = World::datagram(k.t2oId, 1, w.t2oPayload(k, 1, 1, Bytes(k.t2o.size + 1))); if (k.t2o.variable) d.resize(d.size() - 1); break;
				default: d = World::datagram(k.t2oId, 1, w.t2oPayload(k, 1, 1, Bytes(k.t2o.size))); d.resize(d.size() - 1 - c.below(10)); }
			w.arrive(0, d, sock[&k]); break; }
		case 9: if (!k.open && k.held) { c.desc << " close-timed-out"; c.label("a held timed-out handle is passed to close"); w.close(k); k.held.reset(); EXPECT(c, k.w.expired(), name(&k) << "still alive"); w.checkOpen(); } break;
		case 10: if (k.open && c.oneIn(4)) { c.desc << " close"; handle(0); if (k.open) { w.close(k); k.held.reset(); rxAtClose[&k] = k.rx.size(); } } break;
		case 11: if (w.conns.size() < 7) { // the id of a timed-out connection may be granted again
			handle(0); Conn* old = nullptr; for (auto& o : w.conns) if (!o->open) { bool used = false; for (auto& x : w.conns) used |= x->open && x->t2oId == o->t2oId; if (!used) old = o.get(); }
			if (old && c.coin()) { c.label("T->O id granted again"); add(old->t2oId); } else add(0, c.oneIn(3) ? w.producer() : nullptr); } break;
		}
	}
	for (auto& k : w.conns) EXPECT(c, k->closes <= 1, "the close listener ran more than once");
	if (timeouts && kept) c.nontrivial();
	w.finish();
}
}
extern const Property pbt::theProperty = {"C13",
	"1-7 connections with timeout multipliers 0-7 and granted T->O intervals from 0 us to 2^32-1 us on virtual time; up to 26 steps: handling at exactly the limit, 1 us before, 1 us and up to 1.5 ms after it, bursts of short periods, long waits with data arriving inside, accepted data, rejected data (other id, wrong size, truncated), closing held timed-out handles, ids granted again. Every handling call is compared with an exact model of who must be closed, who must live and who must produce. Non-trivial: at least one timeout and at least one survival were decided.",
	run, 256, 40000, 1000000, 1500, 20000};
