// C12: cyclic output data.
#include "io.h"
using namespace io;

namespace {
struct St {
	Bytes data;                  // what the user set last
	bool listens = false; unsigned calls = 0; Bytes seenByListener; std::function<void(Bytes&)> edit;
	bool failing = false;        // sends fail now
	uint64_t lastTry = 0, lastSent = 0; bool everTried = false; unsigned unsure = 0; // attempts that produced no datagram since the last one
	bool have = false; uint32_t seq = 0; uint16_t count = 0;
};

void run(Case& c) {
	World w(c); std::map<Conn*, St> st; unsigned sentTotal = 0; bool suppressed = false;
	static const uint32_t apis[] = {1000, 2000, 5000, 10000, 500, 250, 1500, 3333, 20000, 100000, 1000000, 1, 0};
	auto add = [&] {
		Conn& k = w.open(false, [&](Conn& q) { q.o2tApi = c.oneIn(6) ? (c.coin() ? c.u32() : uint32_t(c.below(50000))) : apis[c.below(13)]; q.t2oApi = 0xffffffffu; q.p.connectionTimeoutMultiplier = 7; if (q.o2t.size > 2000 && c.coin()) q.o2t.size = 40; if (q.o2t.size > 60000) q.o2t.size = 60000; });
		Conn* kk = &k; St& s = st[kk]; s.lastTry = s.lastSent = w.n.nowUs;
		if (auto p = w.lock(k)) {
			if (c.coin()) { s.listens = true; St* sp = &s; p->setSendDataListener([sp](std::vector<uint8_t>& d) { sp->calls++; sp->seenByListener = d; if (sp->edit) sp->edit(d); sp->data = d; }); }
			if (c.oneIn(8)) {} else { s.data = c.bytes(k.o2t.size); p->setDataToSend(s.data); }
		} };
	unsigned nc = 1 + unsigned(c.below(4)); for (unsigned i = 0; i < nc; ++i) add();
	w.n.fault = [&](const char* call, sim::Sock* s) -> int { if (std::string(call) != "send" || !s) return 0; for (auto& p : st) if (p.second.failing && p.first->txFd == s->fd) return ENETUNREACH; return 0; };
	auto handle = [&](uint64_t ms) {
		for (auto& p : st) p.second.calls = 0;
		std::map<Conn*, Bytes> before; for (auto& p : st) before[p.first] = p.second.data;
		w.handle(ms); uint64_t T = w.n.nowUs; std::map<Conn*, unsigned> cnt;
		for (auto& t : w.sentNow()) {
			Conn& k = *t.first; St& s = st[&k]; auto& x = t.second; ++cnt[&k]; ++sentTotal; size_t idx = 0; while (w.conns[idx].get() != &k) ++idx; std::string who = "connection #" + std::to_string(idx) + ": ";
			EXPECT(c, k.open, who << "data was sent for a closed connection"); EXPECT(c, cnt[&k] == 1, who << "more than one datagram in one handling call");
			EXPECT(c, T - s.lastSent >= k.o2tApi, who << "sent " << T - s.lastSent << " us after the previous production, interval " << k.o2tApi);
			EXPECT(c, x.ip == k.ip && x.port == k.port, who << "sent to " << sim::ipText(x.ip) << ":" << x.port << " instead of " << sim::ipText(k.ip) << ":" << k.port);
			expectEq(c, x.data, s.data, who + "application data"); if (k.p.o2tRealTimeFormat) expectEq(c, x.header, 1u, who + "run header");
			if (!k.o2t.variable) expectEq(c, x.data.size(), size_t(k.o2t.size), who + "size of data on a fixed-size connection");
			if (s.listens) expectEq(c, s.calls, 1u, who + "send listener calls for one production");
			if (s.have) { uint32_t d = x.seq - s.seq; EXPECT(c, d >= 1 && d <= 1 + s.unsure, who << "sequence number advanced by " << d << " over " << 1 + s.unsure << " productions");
				if (k.counted()) { uint16_t q = uint16_t(x.count - s.count); EXPECT(c, q == uint16_t(d), who << "sequence count advanced by " << q << ", sequence number by " << d); } }
			s.have = true; s.seq = x.seq; s.count = x.count; s.unsure = 0; s.lastSent = s.lastTry = T;
		}
		for (auto& p : st) {
			Conn& k = *p.first; St& s = p.second; if (!k.open) { EXPECT(c, s.calls == 0, "the send listener of a closed connection was called"); continue; }
			size_t idx = 0; while (w.conns[idx].get() != &k) ++idx; std::string who = "connection #" + std::to_string(idx) + ": ";
			if (s.calls && s.listens) expectEq(c, s.seenByListener, before[&k], who + "data shown to the send listener");
			if (cnt[&k]) continue;
			bool due = T - s.lastTry >= k.o2tApi; bool wrong = !k.o2t.variable && s.data.size() != k.o2t.size;
			if (!due) { if (!s.unsure) EXPECT(c, s.calls == 0, who << "the send listener was called without a production"); continue; }
			EXPECT(c, s.failing || wrong, who << "nothing sent although " << T - s.lastTry << " us passed since the previous production, interval " << k.o2tApi);
			if (s.failing) c.label("failing send"); if (wrong) { c.label("output of the wrong size held back"); suppressed = true; }
			s.unsure++; s.lastTry = T;
		}
	};
	if (c.oneIn(4000)) { // a long-lived connection: 65536 productions and more
		Conn& k = *w.conns[0]; St& s = st[&k]; for (auto& x : w.conns) if (x.get() != &k) { w.close(*x); x->held.reset(); }
		if (k.o2tApi <= 5000000 && k.o2t.size <= 64) {
			unsigned n = 65530 + unsigned(c.below(50)); c.desc << " " << n << " productions"; c.label("more than 65536 productions of one connection"); s.failing = false; if (auto p = w.lock(k)) if (!k.o2t.variable) { s.data = c.bytes(k.o2t.size); p->setDataToSend(s.data); }
			for (unsigned i = 0; i < n; ++i) { w.n.advance(k.o2tApi); handle(0); }
		}
	}
	unsigned steps = 2 + unsigned(c.below(30));
	for (unsigned i = 0; i < steps; ++i) {
		Conn& k = *w.conns[c.below(w.conns.size())]; St& s = st[&k];
		switch (c.below(12)) {
		case 0: case 1: case 2: { uint64_t ms = c.below(c.oneIn(4) ? 200 : 8); c.desc << " handle(" << ms << ")"; handle(ms); break; }
		case 3: case 4: { // run up to a boundary of a connection's interval
			uint64_t target = s.lastTry + k.o2tApi; int64_t off = int64_t(c.below(3)) - 1; uint64_t t = off < 0 && target ? target - 1 : target + uint64_t(off > 0); if (t > w.n.nowUs) w.n.advanceTo(t); c.desc << " to due" << (off >= 0 ? "+" : "") << off; c.label("handled at the exact due time or 1 us off"); handle(0); break; }
		case 5: { // many short periods
			unsigned r = 2 + unsigned(c.below(40)); uint64_t us = 1 + c.below(c.coin() ? 999 : 3000); c.desc << " " << r << "x" << us << "us"; if (us < 1000) c.label("sub-millisecond handling periods"); for (unsigned q = 0; q < r; ++q) { w.n.advance(us); handle(0); } break; }
		case 6: { if (auto p = w.lock(k)) { if (k.open) { Bytes d = c.bytes(c.oneIn(4) ? c.size(600) : k.o2t.variable ? c.size(std::min<uint32_t>(k.o2t.size, 1500)) : k.o2t.size); s.data = d; p->setDataToSend(d); c.desc << " set[" << d.size() << "]"; } } break; }
		case 7: if (s.listens) { unsigned how = unsigned(c.below(4)); Bytes d = c.bytes(k.o2t.size); uint8_t v = c.u8(); c.desc << " edit" << how; c.label("the send listener changes the data");
			s.edit = how == 0 ? std::function<void(Bytes&)>() : how == 1 ? [v](Bytes& b) { if (!b.empty()) b[b.size() / 2] = uint8_t(b[b.size() / 2] + v); } : how == 2 ? std::function<void(Bytes&)>([d](Bytes& b) { b = d; }) : std::function<void(Bytes&)>([v](Bytes& b) { if (b.size() < 2000) b.push_back(v); }); } break;
		case 8: s.failing = !s.failing; c.desc << (s.failing ? " failing on" : " failing off"); break;
		case 9: if (c.oneIn(3) && k.open) { auto f = w.n.fault; c.desc << " close"; w.close(k); k.held.reset(); } break;
		case 10: if (c.oneIn(2) && w.conns.size() < 6) add(); break;
		case 11: { uint64_t us = c.oneIn(6) ? c.below(6000000000ull) : c.below(20000); c.desc << " +" << us << "us"; w.n.advance(us); handle(0); break; }
		}
	}
	w.checkOpen(); for (auto& k : w.conns) EXPECT(c, k->closes == 0, "a connection was closed");
	if (sentTotal >= 2) c.nontrivial(); (void)suppressed;
	w.finish();
}
}
extern const Property pbt::theProperty = {"C12",
	"1-6 connections (granted O->T intervals 0 us to 71 min incl. sub-millisecond and odd ones; class 0-3, run header, fixed/variable; destination named in the reply with address, with 0.0.0.0, or not) on virtual time; up to 30 steps of handling with waits, running to exactly the due instant or 1 us off it, bursts of 1-3000 us periods, data changes (right and wrong size), editing send listeners, failing sends, closes and opens; about one case in 4000 starts with 65536 productions. Oracle: production model over exact times, independent decoding of each datagram, destination, sequence arithmetic. Non-trivial: at least two datagrams were sent.",
	run, 256, 40000, 1000000, 1500, 20000};
