// C08: TCP sessions on the simulated network.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "SessionInfo.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include <algorithm>
#include <cerrno>
#include <memory>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;

namespace {
struct Peer : sim::TcpPeer {
	Bytes got, frame; bool closed = false; int fd = -1; std::function<void(int, const Bytes&)> script; unsigned frames = 0;
	void onData(int f, const Bytes& d) override {
		fd = f; got.insert(got.end(), d.begin(), d.end()); frame.insert(frame.end(), d.begin(), d.end());
		while (frame.size() >= 24) {
			size_t len = 24 + frame[2] + 256u * frame[3]; if (frame.size() < len) break;
			Bytes one(frame.begin(), frame.begin() + long(len)); frame.erase(frame.begin(), frame.begin() + long(len)); ++frames;
			if (script) { auto go = std::move(script); script = nullptr; go(f, one); }
		}
	}
	void onClose(int) override { closed = true; }
	uint64_t lastAt = 0; // when the silence began
};
struct Session { std::unique_ptr<SessionInfo> s; std::shared_ptr<Peer> peer; uint32_t handle = 0; uint64_t timeout = 0; Bytes sent; bool streamDead = false, dflt = false; Bytes ahead; };

// sends bytes as random segments with delays below the receive timeout and signals in between
uint64_t sendSplit(Case& c, sim::Net& n, int fd, const Bytes& b, uint64_t timeoutMs) {
	size_t pos = 0; uint64_t delay = 0; unsigned style = unsigned(c.below(4));
	while (pos < b.size()) {
		size_t left = b.size() - pos, k = left;
		if (style == 1) k = 1 + c.below(std::min<size_t>(left, 30)); else if (style == 2) k = 1 + c.below(left); else if (style == 3) k = pos == 0 ? std::min<size_t>(left, size_t(1 + c.below(30))) : left;
		if (style) delay += c.coin() ? 0 : c.below(timeoutMs * 900);
		if (c.oneIn(6)) { n.seg(fd, delay, {}, sim::Seg::EINTR_ONCE); c.label("interrupted by a signal"); }
		n.tcpSend(fd, delay, Bytes(b.begin() + long(pos), b.begin() + long(pos + k))); pos += k;
		if (pos && style == 1 && b.size() > 2000) style = 2;
	}
	if (style) c.label("reply split into segments");
	return delay;
}
enum Bad { NONE, STATUS, HANDLE, FIN_BEFORE, FIN_MID, RST_BEFORE, RST_MID, SILENCE, SILENCE_MID, SEND_FAILS, BAD_COUNT };
const char* badName[] = {"ok", "error status", "wrong session handle", "closed before the reply", "closed within the reply", "reset before the reply", "reset within the reply", "silence", "silence within the reply", "send fails"};

wire::Encaps genReply(Case& c, uint16_t cmd, uint32_t handle, const Bytes& data) { wire::Encaps e; e.cmd = cmd; e.len = uint16_t(data.size()); e.handle = handle; e.data = data; if (c.coin()) { e.ctx = c.bytes(8); e.options = c.u32(); } return e; }

void script(Case& c, sim::Net& n, Session& s, Bad bad, Bytes frame, const Bytes& extra) {
	auto peer = s.peer.get(); uint64_t to = s.timeout; sim::Net* np = &n; Case* cp = &c;
	peer->script = [=](int fd, const Bytes&) {

		size_t cut = frame.empty() ? 0 : size_t(1 + cp->below(frame.size() - 1)); if (cp->coin()) cut = std::min<size_t>(cut, 1 + cut % 30);
		Bytes part(frame.begin(), frame.begin() + long(cut)), whole = frame; whole.insert(whole.end(), extra.begin(), extra.end());
		switch (bad) {
		case FIN_BEFORE: np->seg(fd, cp->below(to * 500), {}, sim::Seg::FIN); break;
		case RST_BEFORE: np->seg(fd, cp->below(to * 500), {}, sim::Seg::RST, ECONNRESET); break;
		case FIN_MID: { uint64_t d = sendSplit(*cp, *np, fd, part, to); np->seg(fd, d, {}, sim::Seg::FIN); break; }
		case RST_MID: { uint64_t d = sendSplit(*cp, *np, fd, part, to); np->seg(fd, d, {}, sim::Seg::RST, ECONNRESET); break; }
		case SILENCE: case SEND_FAILS: peer->lastAt = np->nowUs; break;
		case SILENCE_MID: peer->lastAt = np->nowUs + sendSplit(*cp, *np, fd, part, to); break;
		default: sendSplit(*cp, *np, fd, whole, to);
		}
	};
}
int sendFault(Case& c, sim::Net& n) { int err = c.pick({EPIPE, ECONNRESET, ENOBUFS, ETIMEDOUT, EHOSTUNREACH}); n.fault = [err](const char* k, sim::Sock*) { return std::string(k) == "send" ? err : 0; }; return err; }
void shortWrites(Case& c, sim::Net& n) {
	if (!c.oneIn(4)) return;
	c.label("short or interrupted writes"); int left = 1 + int(c.below(4)); bool intr = c.coin(); Case* cp = &c;
	n.fault = [left, intr, cp](const char* k, sim::Sock*) mutable { if (std::string(k) != "send" || left <= 0) return 0; --left; return intr && left % 2 ? EINTR : -int(1 + cp->below(40)); };
}

// opens a session; false: opening failed as it had to
bool open(Case& c, sim::Net& n, Session& s) {
	bool dflt = s.dflt = c.oneIn(5); s.timeout = dflt ? 500 : 1 + c.below(3000); uint32_t ip = sim::ip(10, 0, 0, uint8_t(1 + c.below(3))); uint16_t port = c.coin() ? 44818 : uint16_t(1 + c.below(65535));
	do { s.handle = c.u32(); } while (!s.handle && !c.src.exhausted()); if (!s.handle) s.handle = 1;
	s.peer = std::make_shared<Peer>(); auto peer = s.peer; uint32_t cip = 0; uint16_t cport = 0;
	sim::ConnectPlan plan; bool fails = false;
	switch (c.below(10)) {
	case 0: case 1: case 2: case 3: plan.kind = sim::ConnectPlan::ACCEPT; break;
	case 4: case 5: case 6: plan.kind = sim::ConnectPlan::ACCEPT_LATER; plan.delayUs = c.below(s.timeout * 900); break;
	case 7: plan.kind = sim::ConnectPlan::REFUSE_NOW; plan.err = ECONNREFUSED; fails = true; break;
	case 8: plan.kind = sim::ConnectPlan::REFUSE_LATER; plan.delayUs = c.below(s.timeout * 900); plan.err = c.pick({ECONNREFUSED, EHOSTUNREACH}); fails = true; break;
	case 9: plan.kind = sim::ConnectPlan::SILENT; fails = true; break;
	}
	n.onConnect = [&](uint32_t i, uint16_t p) { cip = i; cport = p; return plan; };
	n.onAccepted = [peer](int) { return peer; };
	Bad bad = c.oneIn(3) ? Bad(1 + c.below(BAD_COUNT - 1)) : NONE; if (bad == HANDLE) bad = NONE;
	auto e = genReply(c, 0x65, s.handle, wire::W().u16(1).u16(0).b); if (bad == STATUS) do { e.status = c.u32(); } while (!e.status && !c.src.exhausted());
	if (bad == STATUS && !e.status) e.status = 1;
	script(c, n, s, bad, wire::pack(e), {});
	c.desc << " open(" << sim::ipText(ip) << ":" << port << (dflt ? "" : " timeout " + std::to_string(s.timeout)) << ") connect " << int(plan.kind) << " registration " << badName[bad];
	if (bad == SEND_FAILS) sendFault(c, n); else shortWrites(c, n);
	auto make = [&] { s.s = dflt ? std::make_unique<SessionInfo>(sim::ipText(ip), port) : std::make_unique<SessionInfo>(sim::ipText(ip), port, milliseconds(s.timeout)); };
	size_t openBefore = n.openCount();
	if (fails || bad != NONE) {
		mustThrow(c, std::string("opening a session: ") + (fails ? "connection fails" : badName[bad]), make); n.fault = nullptr;
		c.label(fails ? "connection fails" : "registration fails");
		EXPECT(c, n.openCount() == openBefore, "a failed opening leaks a socket");
		return false;
	}
	mustPass(c, "opening a session", make); n.fault = nullptr;
	EXPECT(c, cip == ip && cport == port, "connected to " << sim::ipText(cip) << ":" << cport);
	expectEq(c, s.s->getSessionHandle(), s.handle, "adopted session handle");
	EXPECT(c, s.s->getRemoteEndPoint() == sockets::EndPoint(sim::ipText(ip), port), "remote endpoint");
	s.sent = wire::encaps(0x65, 0, 0, wire::W().u16(1).u16(0).b);
	expectEq(c, peer->got, s.sent, "bytes sent while opening");
	return true;
}

// silence is noticed after the receive timeout; a signal may prolong it, but not again and again
void waited(Case& c, sim::Net& n, Session& s) { uint64_t w = n.nowUs - s.peer->lastAt; EXPECT(c, w >= s.timeout * 1000 && w <= s.timeout * 1000 * (n.signalEveryUs ? 2 : 1) + 2000, "silence was noticed after " << w << " us, the timeout is " << s.timeout << " ms"); }
void exchange(Case& c, sim::Net& n, Session& s) {
	eip::EncapsPacket p; Bytes data = c.bytesUpTo(c.oneIn(10) ? 65535 : 600, {0, 1, 500, 504});
	static const uint16_t cmds[] = {0x6F, 0x70, 0x63, 0x64, 0x04, 0x65}; uint16_t cmd = cmds[c.below(6)];
	if (cmd == 0x6F && c.coin()) { p = eip::EncapsPacketFactory().createSendRRDataPacket(s.handle, c.u16(), data.size() > 65000 ? data = Bytes(100) : data); }
	else { p.setCommand(eip::EncapsCommands(cmd)); p.setSessionHandle(s.handle); p.setData(data); }
	Bytes out = p.pack();
	if (!s.ahead.empty()) { // the reply came together with the previous one
		c.label("reply coalesced with the previous one"); c.desc << " exchange(coalesced)"; eip::EncapsPacket r; s.peer->script = nullptr;
		mustPass(c, "exchange", [&] { r = s.s->sendAndReceive(p); }); expectEq(c, r.pack(), s.ahead, "reply frame"); s.ahead.clear();
		s.sent.insert(s.sent.end(), out.begin(), out.end()); expectEq(c, s.peer->got, s.sent, "bytes written to the connection"); return;
	}
	Bad bad = c.oneIn(3) ? Bad(1 + c.below(BAD_COUNT - 1)) : NONE;
	auto e = genReply(c, cmd, s.handle, c.bytesUpTo(c.oneIn(10) ? 65535 : 600, {0, 1, 500}));
	if (bad == STATUS) { e.status = c.u32(); if (!e.status) e.status = 1; }
	if (bad == HANDLE) { e.handle = c.oneIn(3) ? 0 : c.coin() ? s.handle ^ (1u << c.below(32)) : c.u32(); if (e.handle == s.handle) e.handle = ~s.handle; }
	Bytes frame = wire::pack(e), extra;
	if ((bad == NONE || bad == STATUS || bad == HANDLE) && c.oneIn(5)) extra = wire::pack(genReply(c, 0x6F, s.handle, c.bytesUpTo(100)));
	script(c, n, s, bad, frame, extra);
	c.desc << " exchange(" << out.size() << " -> " << frame.size() << (extra.empty() ? "" : "+") << " " << badName[bad] << ")"; c.label(bad == NONE ? "exchange succeeds" : badName[bad]);
	if (bad == SEND_FAILS) { sendFault(c, n); mustThrow(c, "exchange with a failing send", [&] { s.s->sendAndReceive(p); }); n.fault = nullptr; expectEq(c, s.peer->got, s.sent, "bytes written to the connection"); s.streamDead = true; return; }
	shortWrites(c, n);
	eip::EncapsPacket r;
	if (bad == NONE) { mustPass(c, "exchange", [&] { r = s.s->sendAndReceive(p); }); expectEq(c, r.pack(), frame, "reply frame"); expectEq(c, unsigned(r.getCommand()), unsigned(e.cmd), "reply command"); expectEq(c, r.getSessionHandle(), e.handle, "reply handle"); expectEq(c, r.getData(), e.data, "reply data"); }
	else mustThrow(c, std::string("exchange: ") + badName[bad], [&] { s.s->sendAndReceive(p); });
	if (!s.dflt && (bad == SILENCE || bad == SILENCE_MID)) waited(c, n, s);
	n.fault = nullptr; s.ahead = extra;
	s.sent.insert(s.sent.end(), out.begin(), out.end()); expectEq(c, s.peer->got, s.sent, "bytes written to the connection");
	if (bad != NONE && bad != STATUS && bad != HANDLE) s.streamDead = true;
	expectEq(c, s.s->getSessionHandle(), s.handle, "session handle");
}
void destroy(Case& c, sim::Net& n, Session& s) {
	if (!s.s) return;
	bool fail = c.oneIn(3); if (fail) { sendFault(c, n); c.label("unregistering fails"); } else { shortWrites(c, n); if (c.oneIn(6) && !s.streamDead) n.seg(s.peer->fd, 0, {}, c.coin() ? sim::Seg::FIN : sim::Seg::RST, ECONNRESET); }
	c.desc << " destroy" << (fail ? "(send fails)" : ""); s.peer->script = nullptr;
	try { s.s.reset(); } catch (...) { c.fail("the destructor of a session threw"); }
	n.fault = nullptr; Bytes un = wire::encaps(0x66, s.handle, 0, {});
	if (!fail) s.sent.insert(s.sent.end(), un.begin(), un.end());
	expectEq(c, s.peer->got, s.sent, "bytes written to the connection up to its end");
	EXPECT(c, s.peer->closed, "the destroyed session did not close its socket");
}

void run(Case& c) {
	sim::Scope sc; auto& n = sc.n; sim::vary(c, n); if (c.oneIn(4)) { n.signalEveryUs = 500 + c.below(c.coin() ? 20000 : 3000000); c.label("periodic signals"); } std::vector<Session> ss(1 + c.below(2)); unsigned ops = 0;
	if (c.coin()) n.tcpReadLimit = [&c](size_t k) { return size_t(1 + (c.coin() ? c.below(k) : k - 1)); };
	for (auto& s : ss) if (open(c, n, s)) ++ops; else { if (n.openCount() == 0 || ss.size() > 1) ++ops; }
	unsigned steps = unsigned(c.below(7));
	for (unsigned i = 0; i < steps; ++i) { auto& s = ss[c.below(ss.size())]; if (!s.s || s.streamDead) continue; exchange(c, n, s); ++ops; }
	if (c.coin()) std::reverse(ss.begin(), ss.end());
	for (auto& s : ss) destroy(c, n, s);
	for (auto& k : n.socks) EXPECT(c, !k.second.open && k.second.closes == 1, "socket " << k.first << " was closed " << k.second.closes << " times");
	if (ops) c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C08",
	"One or two sessions to scripted TCP devices on a simulated network with virtual time: connect outcomes (at once, delayed, refused, silent), registration and up to 6 exchanges with frames to 64 KiB; replies split at random points, delayed below the receive timeout, coalesced with the next reply, interrupted by signals, read in random portions, short and interrupted writes; failures: error status, wrong handle, end of stream or reset before/inside the reply, silence before/inside the reply, failing sends, failing unregistration. Oracle: byte-exact model of both directions, std::runtime_error for every failure, per-socket close count 1. Non-trivial: a session was opened, refused correctly or exchanged data.",
	run, 256, 60000, 1500000, 1200, 40000};
