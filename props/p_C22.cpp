// C22: listeners, completion handlers and log appenders may use the library while they run.
#include "io.h"
#include "pf525.h"
#include "FileObject.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include <map>
using namespace io;

namespace {
struct ListenerError { uint64_t tag; };

// ---------------------------------------------------------------- I/O connections
struct Io {
	Case& c; World w; uint64_t tags = 0; unsigned acts = 0, depth = 0, reentrant = 0; bool mayThrow = true, sharing = false; uint64_t thrown = 0; unsigned throws = 0;
	struct St {
		std::deque<Rx> want; unsigned rxGen = 0, txGen = 0, clGen = 0; bool rxNone = false, txNone = false, clNone = false; bool skip = false;
		unsigned sendCalls = 0; Bytes data, willSend; size_t closedAtSent = 0; bool closedInOwnSend = false, running = false, threw = false, bornNow = false, timedOut = false, noCloseEvent = false; unsigned sock = 0; uint64_t lastAcc = 0;
	};
	std::map<Conn*, St> st;
	Io(Case& cc) : c(cc), w(cc) {}
	std::string name(Conn* k) { size_t i = 0; while (i < w.conns.size() && w.conns[i].get() != k) ++i; return "connection #" + std::to_string(i) + ": "; }

	void setRx(Conn* k) { auto p = w.lock(*k); if (!p) return; St& s = st[k]; unsigned g = ++s.rxGen; auto box = std::make_shared<Bytes>(64, uint8_t(g)); s.rxNone = false;
		p->setReceiveDataListener([this, k, g, own = Bytes(40, uint8_t(g)), box](uint32_t h, uint16_t q, const Bytes& b) {
			St& s = st[k]; EXPECT(c, s.rxGen == g && !s.rxNone, name(k) << "data was given to a replaced receive listener"); EXPECT(c, k->open, name(k) << "data was delivered after the connection was closed");
			Bytes before = b;
			while (s.skip && !s.want.empty() && !(s.want.front().data == b && s.want.front().seq == q && s.want.front().header == h)) s.want.pop_front();
			EXPECT(c, !s.want.empty(), name(k) << "data was delivered that nobody sent, or twice"); Rx x = s.want.front(); s.want.pop_front();
			expectEq(c, b, x.data, name(k) + "delivered data"); expectEq(c, q, x.seq, name(k) + "sequence count"); expectEq(c, h, x.header, name(k) + "real-time header");
			act(k, 'r'); expectEq(c, b, before, name(k) + "data seen by the running listener after it used the library"); EXPECT(c, own == Bytes(40, uint8_t(g)) && *box == Bytes(64, uint8_t(g)), name(k) << "the running listener lost what it captured"); maybeThrow(k); }); }
	void setTx(Conn* k) { auto p = w.lock(*k); if (!p) return; St& s = st[k]; unsigned g = ++s.txGen; auto box = std::make_shared<Bytes>(64, uint8_t(g)); s.txNone = false;
		p->setSendDataListener([this, k, g, own = Bytes(40, uint8_t(g)), box](std::vector<uint8_t>& d) {
			St& s = st[k]; EXPECT(c, s.txGen == g && !s.txNone, name(k) << "a replaced send listener was called"); EXPECT(c, k->open, name(k) << "the send listener ran after the connection was closed"); ++s.sendCalls; s.running = true;
			expectEq(c, d, s.data, name(k) + "data given to the send listener");
			if (c.coin() && !d.empty()) { d[c.below(d.size())] ^= uint8_t(1 + c.below(255)); s.data = d; }
			act(k, 's'); st[k].running = false; st[k].willSend = st[k].data; EXPECT(c, own == Bytes(40, uint8_t(g)) && *box == Bytes(64, uint8_t(g)), name(k) << "the running listener lost what it captured"); maybeThrow(k); }); }
	void setCl(Conn* k) { auto p = w.lock(*k); if (!p) return; St& s = st[k]; unsigned g = ++s.clGen; auto box = std::make_shared<Bytes>(64, uint8_t(g)); s.clNone = false;
		p->setCloseListener([this, k, g, own = Bytes(40, uint8_t(g)), box] {
			St& s = st[k]; EXPECT(c, s.clGen == g && !s.clNone, name(k) << "a replaced close listener was called"); EXPECT(c, k->open, name(k) << "the close listener ran for a connection that is closed already"); k->closes++; k->open = false; s.closedAtSent = w.n.sent.size(); s.timedOut = true; c.label("timed out");
			act(k, 'c'); EXPECT(c, own == Bytes(40, uint8_t(g)) && *box == Bytes(64, uint8_t(g)), name(k) << "the running listener lost what it captured"); maybeThrow(k); }); }
	void maybeThrow(Conn* k) { if (!sharing && mayThrow && c.oneIn(12)) { mayThrow = false; thrown = ++tags; ++throws; st[k].threw = true; c.desc << " throw"; c.label("a listener throws"); throw ListenerError{thrown}; } }

	Conn* add(uint32_t id = 0, Conn* with = nullptr) {
		Conn& k = w.open(false, [&](Conn& q) { q.o2tApi = 1; q.t2oId = id; if (with) { World::join(q, *with); c.label("connections share one production"); c.desc << " shared"; } q.t2oApi = c.coin() ? uint32_t(1000 + c.below(20000)) : 0xffffffffu; if (q.o2t.size > 60) q.o2t.size = 20; if (q.t2o.size > 60) q.t2o.size = 20; q.p.connectionTimeoutMultiplier = uint8_t(c.below(3)); });
		Conn* kk = &k; St& s = st[kk]; s.sock = unsigned(c.below(8)); for (auto& o : w.conns) if (o.get() != kk && o->t2oId == k.t2oId) s.sock = st[o.get()].sock; s.data = c.bytes(k.o2t.size); s.lastAcc = w.n.nowUs; s.bornNow = depth > 0;
		if (auto p = w.lock(k)) p->setDataToSend(s.data);
		setRx(kk); setTx(kk); setCl(kk); return kk; }
	void closeNow(Conn* k) {
		bool was = k->open; St& s = st[k]; if (was) { s.closedAtSent = w.n.sent.size(); s.closedInOwnSend = s.running; }
		if (was) { w.close(*k); s.want.clear(); } else w.close(*k);
		if (c.coin()) k->held.reset(); }
	// what a listener of connection `self` does
	void act(Conn* self, char where) {
		if (depth > 0 || acts > 60) return;
		++depth; unsigned n = unsigned(c.below(4));
		for (unsigned i = 0; i < n; ++i) { ++acts; ++reentrant; Conn* k = c.coin() ? self : w.conns[c.below(w.conns.size())].get(); if (st[k].clNone && w.n.nowUs - st[k].lastAcc > k->limit()) continue; /* may be gone already, unnoticed */ c.desc << " (" << where; c.desc << ":";
			switch (c.below(10)) {
			case 0: case 1: c.desc << "close" << (k == self ? " self" : ""); c.label(k == self ? "a listener closes its own connection" : "a listener closes another connection"); closeNow(k); break;
			case 2: if (w.conns.size() < 9) { uint32_t id = 0; if (where == 'c' && c.coin()) { id = self->t2oId; for (auto& o : w.conns) if (o->open && o->t2oId == id) id = 0; } if (id) c.label("a close listener opens again with the same T->O id"); c.label("a listener opens a connection"); add(id); } break;
			case 3: c.desc << "rx-listener"; c.label("a listener replaces a receive listener"); if (k->open) setRx(k); break;
			case 4: c.desc << "tx-listener"; c.label("a listener replaces a send listener"); if (k->open) setTx(k); break;
			case 5: c.desc << "cl-listener"; c.label("a listener replaces a close listener"); if (k->open || k == self) setCl(k); break;
			case 6: c.desc << "empty"; if (auto p = k->open ? w.lock(*k) : nullptr) { St& s = st[k]; c.label("an empty listener is set"); switch (c.below(3)) { case 0: p->setReceiveDataListener({}); s.rxNone = s.skip = true; break; case 1: p->setSendDataListener({}); s.txNone = true; break; default: p->setCloseListener(nullptr); s.clNone = true; } } break;
			case 7: c.desc << "data"; if (auto p = k->open ? w.lock(*k) : nullptr) { st[k].data = c.bytes(k->o2t.size); p->setDataToSend(st[k].data); } break;
			case 8: c.desc << "release"; k->held.reset(); break;
			case 9: { bool any = false, unsure = where == 'c'; for (auto& o : w.conns) { any |= o->open; unsure |= o->open && st[o.get()].clNone; } c.desc << "query"; if (!unsure) EXPECT(c, w.m->hasOpenConnections() == any, "wrong answer to hasOpenConnections inside a listener"); break; }
			}
			c.desc << ")"; }
		--depth; }

	void handle(uint64_t ms) {
		struct Before { bool open; uint64_t prod; unsigned closes, sends; };
		std::map<Conn*, Before> b; for (auto& k : w.conns) { St& s = st[k.get()]; b[k.get()] = {k->open, k->lastProd, k->closes, s.sendCalls}; s.threw = s.bornNow = s.closedInOwnSend = false; s.skip |= s.rxNone; if (k->open && !s.want.empty()) s.lastAcc = w.n.nowUs; }
		size_t sentBefore = w.n.sent.size(); mayThrow = true; bool again = false; (void)sentBefore;
		try { w.m->handleConnections(milliseconds(ms)); EXPECT(c, mayThrow, "the exception of a listener did not reach the caller"); }
		catch (const ListenerError& e) { EXPECT(c, !mayThrow && e.tag == thrown, "a stale exception came out of handling"); again = true; }
		catch (const Failure&) { throw; } catch (const Discard&) { throw; }
		catch (const std::exception& e) { c.fail(std::string("exception from handling: ") + e.what()); }
		if (again) { mayThrow = false; w.handle(0); }
		uint64_t T = w.n.nowUs; size_t from = w.seen; std::map<Conn*, unsigned> sent; std::map<Conn*, size_t> lastIdx; auto v = w.sentNow();
		for (size_t i = 0; i < v.size(); ++i) { Conn* k = v[i].first; sent[k]++; lastIdx[k] = from + i; }
		for (auto& kp : w.conns) { Conn* k = kp.get(); St& s = st[k]; bool wasOpen = b.count(k) ? b[k].open : false, born = !b.count(k);
			if (k->open && s.clNone && T - s.lastAcc > k->limit()) { k->open = false; s.closedAtSent = w.n.sent.size(); s.timedOut = true; c.label("timed out without listener"); }
			else if (wasOpen && k->open) EXPECT(c, !(T - s.lastAcc > k->limit()), name(k) << "not closed " << T - s.lastAcc << " us after the last data, limit " << k->limit());
			if (s.timedOut && wasOpen) { EXPECT(c, T - s.lastAcc > k->limit(), name(k) << "timed out " << T - s.lastAcc << " us after the last data, limit " << k->limit()); EXPECT(c, !sent[k], name(k) << "data was sent by the call that closed it"); s.timedOut = false; }
			EXPECT(c, k->closes <= 1, name(k) << "the close listener ran " << k->closes << " times");
			if (!k->open) {
				if (sent[k]) EXPECT(c, lastIdx[k] < s.closedAtSent || (s.closedInOwnSend && lastIdx[k] == s.closedAtSent) || (s.closedInOwnSend && sent[k] == 1), name(k) << "data was sent after it was closed");
				if (!k->held) EXPECT(c, k->w.expired(), name(k) << "the handle of a closed connection is still alive"); s.want.clear();
				continue; }
			EXPECT(c, !k->w.expired(), name(k) << "the handle of an open connection expired");
			if (born) { EXPECT(c, sent[k] <= 1, name(k) << "a new connection sent " << sent[k] << " datagrams"); if (sent[k] || s.threw) k->lastProd = T; continue; }
			if (s.skip) { s.want.clear(); s.skip = s.rxNone; }
			EXPECT(c, s.want.empty(), name(k) << s.want.size() << " datagrams were lost");
			bool due = T - k->lastProd >= 1;
			if (due) { if (s.threw && !sent[k]) {} else EXPECT(c, sent[k] == 1, name(k) << "an open connection sent " << sent[k] << " datagrams"); k->lastProd = T; }
		}
		for (auto& x : v) { Conn* k = x.first; St& s = st[k]; if (sent[k] == 1 && s.sendCalls == (b.count(k) ? b[k].sends : 0) + 1) expectEq(c, x.second.data, s.willSend, name(k) + "data sent"); }
		bool any = false; for (auto& o : w.conns) any |= o->open; EXPECT(c, w.m->hasOpenConnections() == any, "open connections reported: " << !any);
	}
	void run() {
		unsigned nc = 1 + unsigned(c.below(4)); sharing = c.oneIn(4); for (unsigned i = 0; i < nc; ++i) add(0, sharing && c.coin() ? w.producer() : nullptr);
		unsigned steps = 1 + unsigned(c.below(8));
		for (unsigned i = 0; i < steps; ++i) {
			c.desc << " |";
			unsigned r = unsigned(c.below(5));
			for (unsigned q = 0; q < r; ++q) { Conn* kp = w.conns[c.below(w.conns.size())].get(); if (!kp->open) for (auto& o : w.conns) if (o->open && o->t2oId == kp->t2oId) kp = o.get(); Conn& k = *kp; uint16_t seq = c.u16(); uint32_t h = c.u32(); Bytes d = c.bytes(k.t2o.size); c.desc << " data";
				w.arrive(0, World::datagram(k.t2oId, c.u32(), w.t2oPayload(k, seq, h, d)), st[&k].sock); if (k.open) for (auto& o : w.conns) if (o->open && o->t2oId == k.t2oId) st[o.get()].want.push_back({k.p.t2oRealTimeFormat ? h : 0, uint16_t(k.counted() ? seq : 0), d, 0}); }
			if (c.oneIn(3)) { Conn& k = *w.conns[c.below(w.conns.size())]; uint64_t t = st[&k].lastAcc + k.limit() + c.below(2); if (k.open && t > w.n.nowUs && t < w.n.nowUs + 1000000) { c.desc << " to-limit"; // data queued must be read first
				bool queued = false; for (auto& x : st) queued |= !x.second.want.empty(); if (!queued) w.n.advanceTo(t); } }
			else w.n.advance(c.below(9000));
			uint64_t ms = c.coin() ? 0 : c.below(8); c.desc << " handle(" << ms << ")"; handle(ms);
			if (w.conns.size() < 8 && c.oneIn(4)) add(0, sharing && c.coin() ? w.producer() : nullptr);
		}
		if (reentrant) c.nontrivial();
		w.finish();
	}
};

// ---------------------------------------------------------------- file uploads
void files(Case& c) {
	using namespace eipScanner; c.label("upload handlers"); uint16_t inst = c.u16(); auto d = std::make_shared<dev::Device>(c, c.u32());
	Bytes file; unsigned ts = 1, next = 0; bool begun = false; uint8_t refuse = 0; unsigned uploads = 0, finished = 0, want = 1 + unsigned(c.below(5)), nested = 0; bool failing = false;
	d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80);
		if (x.req.service == 0x0E) { r.data = {2}; return r; }
		if (x.req.service == 0x4B) { file = c.bytesUpTo(60); ts = 1 + unsigned(c.below(20)); next = 0; begun = true; refuse = c.oneIn(5) ? dev::errorStatus(c) : 0; failing = c.oneIn(5); r.status = refuse; r.data = wire::W().u32(uint32_t(file.size())).u8(uint8_t(ts)).b; return r; }
		EXPECT(c, x.req.service == 0x4F && x.req.data.size() == 1, "unexpected file request"); size_t pos = size_t(next) * ts; size_t n = std::min<size_t>(ts, file.size() - pos); bool last = pos + n >= file.size();
		expectEq(c, unsigned(x.req.data[0]), next & 255, "packet number"); if (failing && c.coin()) { r.status = dev::errorStatus(c); refuse = r.status; return r; }
		wire::W wr; wr.u8(uint8_t(next)).u8(last ? (next ? 2 : 4) : (next ? 1 : 0)).raw(Bytes(file.begin() + long(pos), file.begin() + long(pos + n))); if (last) wr.u16(0); r.data = wr.b; ++next; return r; };
	auto f = std::make_unique<FileObject>(inst, d); bool thrown = false; unsigned pending = 0;
	std::function<fileObject::EndUploadHandler(unsigned)> mk = [&](unsigned id) -> fileObject::EndUploadHandler {
		return [&, id, own = Bytes(50, uint8_t(id))](cip::GeneralStatusCodes s, const Bytes& content) {
			EXPECT(c, id == uploads && pending == 1, "the handler of upload " << id << " was called, running: " << uploads); pending = 0; ++finished; Bytes was = content; if (s == cip::GeneralStatusCodes::SUCCESS) expectEq(c, content, file, "content of the upload"); else { EXPECT(c, refuse && uint8_t(s) == refuse, "status " << int(s)); EXPECT(c, content.empty(), "content of a failed upload"); }
			switch (c.below(4)) {
			case 0: if (uploads < want && f) { c.desc << " begin-in-handler"; c.label("a handler begins the next upload"); ++uploads; ++nested; pending = 1; f->beginUpload(d, mk(uploads)); } break;
			case 1: if (uploads == want) { c.desc << " destroy-in-handler"; c.label("a handler destroys the file object"); ++nested; f.reset(); } break;
			case 2: if (c.oneIn(3)) { thrown = true; ++nested; c.desc << " throw-in-handler"; throw ListenerError{id}; } break;
			default: break; }
			if (!nested) expectEq(c, content, was, "content seen by the running handler"); EXPECT(c, own == Bytes(50, uint8_t(id)), "the running handler lost what it captured"); }; };
	unsigned guard = 0;
	auto call = [&](auto&& fn) { try { fn(); EXPECT(c, !thrown, "the exception of a handler did not reach the caller"); } catch (const ListenerError&) { EXPECT(c, thrown, "a stale exception"); thrown = false; } };
	while (f && guard++ < 400) {
		if (!pending) { if (uploads == want) break; ++uploads; pending = 1; c.desc << " begin"; call([&] { f->beginUpload(d, mk(uploads)); }); }
		else call([&] { (void)f->handleTransfers(d); }); }
	EXPECT(c, guard < 400, "uploads do not finish"); EXPECT(c, finished == uploads, finished << " handler calls for " << uploads << " uploads");
	if (nested) c.nontrivial(); (void)begun;
}

// ---------------------------------------------------------------- drive faults
void faults(Case& c) {
	using namespace eipScanner; using namespace eipScanner::vendor::ra::powerFlex525; c.label("fault listeners"); auto d = std::make_shared<dev::Device>(c, c.u32());
	unsigned n = 1 + unsigned(c.below(10)), calls = 0, nested = 0, gen = 0; auto mr = std::make_shared<MessageRouter>(); unsigned clears = 0; bool clear = c.coin();
	static const unsigned codeParam[] = {7, 8, 9, 604, 605, 606, 607, 608, 609, 610};
	d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); if (x.req.service == 0x10) { ++clears; return r; }
		unsigned pos = 99; for (unsigned i = 0; i < 10; ++i) if (x.req.path.id[1] == codeParam[i]) pos = i; EXPECT(c, pos < 10, "unexpected read"); r.data = wire::W().u16(pos < n ? 2 + pos % 4 : 0).b; return r; };
	DPIFaultManager m(clear, false, false); bool none = false; unsigned expect = 0;
	std::function<void()> set = [&] { unsigned g = ++gen; none = false; m.setNewFaultListener([&, g, own = Bytes(50, uint8_t(g))](const DPIFaultParameter&) {
		EXPECT(c, g == gen && !none, "a replaced listener was called"); ++calls; ++expect;
		switch (c.below(5)) { case 0: ++nested; c.desc << " replace"; c.label("a fault listener replaces itself"); set(); break; case 1: ++nested; c.desc << " empty"; m.setNewFaultListener({}); none = true; break; case 2: ++nested; c.desc << " command"; m.writeCommand(DPIFaultManagerCommands::CLEAR_FAULT_QUEUE, d, mr); break; default: break; }
		EXPECT(c, own == Bytes(50, uint8_t(g)), "the running listener lost what it captured"); }); };
	set(); unsigned before = 0; (void)before;
	mustPass(c, "reading the faults", [&] { m.handleFaultParameters(d, mr); }); if (!none) EXPECT(c, calls == n, calls << " of " << n << " faults reported"); EXPECT(c, calls >= 1 && calls <= n, "wrong number of reports");
	if (clear) EXPECT(c, clears >= 1, "the queue was not cleared"); if (nested) c.nontrivial();
}

// ---------------------------------------------------------------- log appenders
void logs(Case& c) {
	using eipScanner::utils::Logger; using eipScanner::utils::LogLevel; using eipScanner::utils::LogAppenderIf; c.label("log appenders");
	struct Sh { Case& c; unsigned gen = 0, nested = 0; bool in = false; std::vector<std::pair<unsigned, std::string>> got; };
	auto sh = std::make_shared<Sh>(Sh{c}); std::vector<std::pair<unsigned, std::string>> want;
	struct App : LogAppenderIf { std::shared_ptr<Sh> s; unsigned g; Bytes own; App(std::shared_ptr<Sh> x) : s(x), g(++x->gen), own(50, uint8_t(x->gen)) {}
		void print(LogLevel, const std::string& m) override { s->got.push_back({g, m}); if (s->in) return; s->in = true; unsigned my = g; auto k = s;
			switch (k->c.below(4)) { case 0: ++k->nested; k->c.label("an appender replaces itself"); k->c.desc << " replace"; Logger::setAppender(std::make_unique<App>(k)); break;
				case 1: ++k->nested; k->c.desc << " log"; Logger(LogLevel::ERROR) << "nested by " << my; break; case 2: Logger::setLogLevel(LogLevel::INFO); break; default: break; }
			EXPECT(k->c, own == Bytes(50, uint8_t(my)), "the running appender was destroyed"); k->in = false; } };
	Logger::setLogLevel(LogLevel::INFO); Logger::setAppender(std::make_unique<App>(sh)); unsigned n = 1 + unsigned(c.below(8));
	for (unsigned i = 0; i < n; ++i) { size_t at = sh->got.size(); unsigned g = sh->gen; std::string t = c.text(c.below(20)); { Logger(LogLevel::INFO) << t; }
		EXPECT(c, sh->got.size() > at && sh->got[at].first == g && sh->got[at].second == t, "the message did not reach the current appender"); EXPECT(c, sh->got.size() <= at + 2, "a message was printed twice"); }
	if (sh->nested) c.nontrivial();
	struct Null : LogAppenderIf { void print(LogLevel, const std::string&) override {} }; Logger::setAppender(std::make_unique<Null>());
}

void run(Case& c) {
	switch (c.below(10)) { case 7: files(c); return; case 8: faults(c); return; case 9: logs(c); return; default: { c.label("I/O listeners"); Io x(c); x.run(); } }
}
}
extern const Property pbt::theProperty = {"C22",
	"Four kinds of history: (70%) 1-9 I/O connections whose receive, send and close listeners, while they run, close their own or other connections, open new ones (also with the T->O id just closed), replace or empty any listener including the running one, change output data, release handles, query the manager, or throw; upload handlers that begin the next upload, destroy the file object or throw; fault listeners that replace themselves or send commands; log appenders that replace themselves or log. Oracle: per-connection model of deliveries, productions, timeouts and listener generations, captured data of the running listener intact (also under AddressSanitizer). Non-trivial: at least one listener used the library while it ran.",
	run, 256, 40000, 1000000, 1000, 20000};
