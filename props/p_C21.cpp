// C21: socket objects on the simulated network.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "sockets/TCPSocket.h"
#include <algorithm>
#include <cerrno>
#include <random>
#include <set>
using namespace pbt;
using namespace eipScanner::sockets;
using sim::Datagram;
using std::chrono::milliseconds;

namespace {
int errOf(Case& c, std::initializer_list<int> l) { return c.pick(l); }
// "wait for ever", or almost
uint64_t huge(Case& c) { return c.pick<uint64_t>({uint64_t(milliseconds::max().count()), uint64_t(milliseconds::max().count()) / 1000, 9223372036855ull, 18446744073710ull, 1ull << 40, 2147483648000ull, 4294967296000ull}); }
bool isHuge(uint64_t t) { return t > 1000000000; }
int sendErr(Case& c) { return errOf(c, {ENETUNREACH, EHOSTUNREACH, EPERM, EACCES, ENOBUFS, EMSGSIZE, ECONNREFUSED, ENOMEM}); }
int recvErr(Case& c) { return errOf(c, {ECONNREFUSED, ENOMEM, EHOSTUNREACH, ENETDOWN}); }
// f must raise std::system_error carrying exactly this errno
template <class F> void mustFail(Case& c, const std::string& what, int err, F&& f) {
	try { f(); }
	catch (const std::system_error& e) {
		if (!(e.code() == std::error_condition(err, std::generic_category()))) c.fail(what + ": error code is " + std::to_string(e.code().value()) + ", the operating system reported " + std::to_string(err));
		return;
	} catch (const Failure&) { throw; }
	catch (const std::exception& e) { c.fail(what + ": raised something other than std::system_error: " + e.what()); }
	c.fail(what + ": no error was raised");
}
struct Leak { Case& c; sim::Net& n; ~Leak() noexcept(false) {} void check() {
	for (auto& s : n.socks) EXPECT(c, !s.second.open && s.second.closes == 1, "socket " << s.first << " was closed " << s.second.closes << " times"); } };

uint32_t genIp(Case& c) { return c.oneIn(3) ? c.u32() : sim::ip(10, 0, 0, uint8_t(1 + c.below(4))); }

void udp(Case& c, sim::Net& n) {
	bool bound = c.coin(); uint32_t ip = genIp(c); uint16_t port = uint16_t(1 + c.below(65535));
	c.label(bound ? "bound UDP" : "UDP"); c.desc << (bound ? "UDPBoundSocket " : "UDPSocket ") << sim::ipText(ip) << ":" << port;
	EndPoint ep(sim::ipText(ip), port);
	int kind = int(c.below(12)); // construction faults
	if (kind >= 10) {
		int err = errOf(c, {EMFILE, EADDRINUSE, EACCES, ENOBUFS}); const char* call = kind == 10 ? "socket" : bound ? (c.coin() ? "bind" : "setsockopt") : "socket";
		n.fault = [&, call](const char* k, sim::Sock*) { return std::string(k) == call ? err : 0; };
		c.desc << " with failing " << call; c.label("construction fails"); c.nontrivial();
		mustFail(c, std::string("construction with failing ") + call, err, [&] { if (bound) UDPBoundSocket s(ep); else UDPSocket s(ep); });
		n.fault = nullptr; return;
	}
	std::unique_ptr<UDPSocket> s; bool viaText = c.coin();
	mustPass(c, "construction", [&] { if (bound) s = viaText ? std::make_unique<UDPBoundSocket>(sim::ipText(ip), port) : std::make_unique<UDPBoundSocket>(ep); else s = viaText ? std::make_unique<UDPSocket>(sim::ipText(ip), port) : std::make_unique<UDPSocket>(ep); });
	int fd = s->getSocketFd(); EXPECT(c, n.socks.count(fd) && n.socks[fd].open, "no open socket behind the object");
	EXPECT(c, s->getRemoteEndPoint() == ep, "remote endpoint differs");
	if (bound) { auto& k = n.socks[fd]; EXPECT(c, k.bound && k.bindPort == port && k.bindIp == 0, "not bound to its port on all local addresses");
		if (c.oneIn(3)) mustPass(c, "second socket bound to the same port", [&] { UDPBoundSocket other(ep); }); }
	uint64_t timeout = 0; std::vector<Datagram> pending; unsigned sends = 0, recvs = 0, fails = 0;
	bool signals = c.oneIn(4); if (signals) { n.signalEveryUs = 500 + c.below(c.coin() ? 20000 : 2000000); c.label("UDP receives interrupted over and over"); c.desc << " signals every " << n.signalEveryUs << " us"; }
	int sendSignals = 0; if (signals) sendSignals = int(c.below(3));
	unsigned steps = 1 + unsigned(c.below(14));
	for (unsigned i = 0; i < steps; ++i) switch (c.below(6)) {
	case 0: { // send
		Bytes d = c.bytesUpTo(65507, {0, 1, 504, 1472, 1500}); size_t before = n.sent.size(); c.desc << " send[" << d.size() << "]";
		if (sendSignals) n.fault = [left = sendSignals](const char* k, sim::Sock*) mutable { return std::string(k) == "send" && left-- > 0 ? EINTR : 0; };
		mustPass(c, "send", [&] { s->Send(d); }); ++sends; n.fault = nullptr;
		EXPECT(c, n.sent.size() == before + 1, "one Send made " << n.sent.size() - before << " datagrams");
		auto& m = n.sent.back(); EXPECT(c, m.fd == fd && m.ip == ip && m.port == port, "datagram went to " << sim::ipText(m.ip) << ":" << m.port); expectEq(c, m.data, d, "datagram contents"); break; }
	case 1: { // failing send
		int err = sendErr(c); n.fault = [&](const char* k, sim::Sock*) { return std::string(k) == "send" ? err : 0; }; c.desc << " send!" << err; ++fails;
		mustFail(c, "failing send", err, [&] { s->Send(c.bytesUpTo(300)); }); n.fault = nullptr; break; }
	case 2: { // datagram arrives
		Datagram d; d.data = c.bytesUpTo(2000, {0, 1, 504, 505, 1500}); d.srcIp = genIp(c); d.srcPort = c.u16(); c.desc << " arrive[" << d.data.size() << "]";
		if (bound) n.deliver(port, d); else n.deliverFd(fd, d); pending.push_back(d); break; }
	case 3: case 4: { // receive
		size_t size = c.oneIn(3) && !pending.empty() ? pending[0].data.size() + c.below(3) - std::min<size_t>(1, pending[0].data.size()) : c.size(2048, {1, 504, 1500});
		bool from = c.coin(); EndPoint who("1.1.1.1", 1); Bytes got; c.desc << (from ? " recvFrom(" : " recv(") << size << ")";
		auto rx = [&] { got = from ? s->ReceiveFrom(size, who) : s->Receive(size); };
		if (pending.empty()) {
			if (!timeout) break;
			uint64_t t0 = n.nowUs, calls0 = n.steps; ++fails;
			if (isHuge(timeout) || c.coin()) { // arrives late, but in time
				Datagram d; d.data = c.bytesUpTo(600); d.srcIp = genIp(c); d.srcPort = c.u16(); uint64_t at = c.below(std::min<uint64_t>(timeout, 5000) * 1000);
				n.after(at, [&n, d, fd] { n.deliverFd(fd, d); }); c.desc << "=late";
				mustPass(c, "receive of a datagram arriving within the timeout", rx); expectEq(c, got, Bytes(d.data.begin(), d.data.begin() + long(std::min(size, d.data.size()))), "late datagram"); ++recvs; break; }
			c.desc << "=timeout"; c.label("receive timeout");
			mustFail(c, "receive timeout", EAGAIN, rx); EXPECT(c, n.nowUs - t0 >= timeout * 1000, "timeout raised early"); { uint64_t calls = n.steps - calls0, signalled = n.signalEveryUs ? (n.nowUs - t0) / n.signalEveryUs + 1 : 0; EXPECT(c, calls <= 10 + 5 * signalled, "waiting spins: " << calls << " system calls in " << n.nowUs - t0 << " us"); } EXPECT(c, n.nowUs - t0 <= timeout * 1000 * (n.signalEveryUs ? 2 : 1) + 2000, "the timeout was raised after " << n.nowUs - t0 << " us of " << timeout * 1000);
			break; }
		if (c.oneIn(6)) { int err = recvErr(c); n.fault = [&](const char* k, sim::Sock*) { return std::string(k) == "recv" ? err : 0; }; c.desc << "!" << err; ++fails; mustFail(c, "failing receive", err, rx); n.fault = nullptr; break; }
		Datagram d = pending.front(); pending.erase(pending.begin());
		mustPass(c, "receive", rx); ++recvs;
		expectEq(c, got, Bytes(d.data.begin(), d.data.begin() + long(std::min(size, d.data.size()))), "received datagram");
		if (from) { expectEq(c, who.getHost(), sim::ipText(d.srcIp), "sender host"); expectEq(c, who.getPort(), int(d.srcPort), "sender port"); }
		if (size < d.data.size()) c.label("datagram cut to the requested size"); if (size > d.data.size()) c.label("datagram shorter than requested");
		break; }
	case 5: timeout = 1 + c.below(5000); if (c.oneIn(8)) { timeout = huge(c); c.label("huge receive timeout"); } s->setRecvTimeout(milliseconds(timeout)); expectEq(c, uint64_t(s->getRecvTimeout().count()), timeout, "receive timeout"); c.desc << " timeout=" << timeout; break;
	}
	if (sends + recvs + fails >= 2) c.nontrivial();
}

struct Peer : sim::TcpPeer { Bytes got; bool closed = false; void onData(int, const Bytes& d) override { got.insert(got.end(), d.begin(), d.end()); } void onClose(int) override { closed = true; } };

void tcp(Case& c, sim::Net& n) {
	uint32_t ip = genIp(c); uint16_t port = uint16_t(1 + c.below(65535)); uint64_t timeout = 1 + c.below(3000); unsigned form = unsigned(c.below(6)); bool forever = form >= 3 && c.oneIn(8); if (forever) c.label("huge connect timeout"); if (form < 3) { timeout = 1000; c.label("default connect timeout"); }
	auto peer = std::make_shared<Peer>(); uint32_t cip = 0; uint16_t cport = 0; sim::ConnectPlan plan; int want = 0;
	switch (c.below(forever ? 5 : 6)) {
	case 0: case 1: plan.kind = sim::ConnectPlan::ACCEPT; break;
	case 2: plan.kind = sim::ConnectPlan::ACCEPT_LATER; plan.delayUs = c.below(timeout * 1000); break;
	case 3: plan.kind = sim::ConnectPlan::REFUSE_NOW; want = plan.err = errOf(c, {ECONNREFUSED, ENETUNREACH, EACCES, EADDRNOTAVAIL}); break;
	case 4: plan.kind = sim::ConnectPlan::REFUSE_LATER; plan.delayUs = c.below(timeout * 1000); want = plan.err = errOf(c, {ECONNREFUSED, EHOSTUNREACH, ETIMEDOUT, ECONNRESET}); break;
	case 5: plan.kind = sim::ConnectPlan::SILENT; want = ETIMEDOUT; break;
	}
	n.onConnect = [&](uint32_t i, uint16_t p) { cip = i; cport = p; return plan; };
	n.onAccepted = [&](int) { return peer; };
	int interrupts = 0;
	if (plan.kind != sim::ConnectPlan::ACCEPT && plan.kind != sim::ConnectPlan::REFUSE_NOW && c.oneIn(4)) { interrupts = 1 + int(c.below(2)); c.label("connect interrupted by a signal"); }
	int left = interrupts; if (!interrupts && c.oneIn(5)) { n.signalEveryUs = 500 + c.below(timeout * 700 + 1000); c.label("connect interrupted over and over"); }
	if (c.oneIn(12)) { want = errOf(c, {EMFILE, ENFILE, ENOBUFS}); n.fault = [&](const char* k, sim::Sock*) { return std::string(k) == "socket" ? want : 0; }; c.desc << " socket fails"; }
	else if (interrupts) n.fault = [&](const char* k, sim::Sock*) { return std::string(k) == "select" && left > 0 ? (--left, EINTR) : 0; };
	c.desc << "TCP " << sim::ipText(ip) << ":" << port << " timeout " << timeout << " plan " << int(plan.kind) << " delay " << plan.delayUs << " err " << want << " interrupts " << interrupts;
	std::unique_ptr<TCPSocket> s; uint64_t t0 = n.nowUs, calls0 = n.steps;
	auto make = [&] { s = form == 0 ? std::make_unique<TCPSocket>(sim::ipText(ip), port) : form == 1 ? std::make_unique<TCPSocket>(EndPoint(sim::ipText(ip), port)) : std::make_unique<TCPSocket>(EndPoint(sim::ipText(ip), port), milliseconds(forever ? int64_t(huge(c)) : int64_t(timeout))); };
	if (want) {
		c.label("connect fails"); mustFail(c, "connect", want, make); c.nontrivial();
		{ uint64_t calls = n.steps - calls0, signalled = n.signalEveryUs ? (n.nowUs - t0) / n.signalEveryUs + 1 : 0; EXPECT(c, calls <= 40 + 10 * (signalled + unsigned(interrupts)), "connecting spins: " << calls << " system calls in " << n.nowUs - t0 << " us"); }
		if (plan.kind == sim::ConnectPlan::SILENT && want == ETIMEDOUT) { EXPECT(c, n.nowUs - t0 + 1000 >= timeout * 1000, "connect timeout raised early"); EXPECT(c, n.nowUs - t0 <= timeout * 1000 + 10000, "connect timeout raised after " << n.nowUs - t0 << " us"); }
		n.fault = nullptr; return;
	}
	if (c.oneIn(10)) { // the calls around connecting fail
		int err = errOf(c, {EBADF, EINVAL, EPERM, ENOMEM}), skip = int(c.below(4)); bool opt = plan.kind == sim::ConnectPlan::ACCEPT_LATER && c.coin(), hit = false; const char* call = !opt ? "fcntl" : c.coin() ? "getsockopt" : "select"; if (opt) skip = 0;
		c.desc << " " << call << " #" << skip << " fails with " << err; c.label(!opt ? "fcntl fails" : *call == 'g' ? "getsockopt fails" : "waiting for the connect fails");
		n.fault = [&, call](const char* k, sim::Sock*) { if (std::string(k) != call || skip-- != 0) return 0; hit = true; return err; };
		Outcome o = guarded(c, "connect", [&] { try { make(); } catch (const std::system_error& e) { EXPECT(c, e.code() == std::error_condition(err, std::generic_category()), "the error code is " << e.code().value() << ", the operating system reported " << err); throw; } });
		n.fault = nullptr; n.signalEveryUs = 0; EXPECT(c, (o == Outcome::OK) == !hit, "failing " << call << " was " << (hit ? "ignored" : "reported though it did not happen")); c.nontrivial(); return; }
	mustPass(c, "connect", make); n.fault = nullptr; n.signalEveryUs = 0; c.label("connected");
	if (c.oneIn(4)) { n.signalEveryUs = 500 + c.below(c.coin() ? 20000 : 2000000); c.label("receives interrupted over and over"); c.desc << " signals every " << n.signalEveryUs << " us"; }
	EXPECT(c, cip == ip && cport == port, "connected to " << sim::ipText(cip) << ":" << cport);
	int fd = s->getSocketFd(); EXPECT(c, !n.socks[fd].nonblock, "the connected socket is left non-blocking");
	uint64_t rto = 1 + c.below(3000); bool patient = c.oneIn(8); if (patient) c.label("huge receive timeout"); s->setRecvTimeout(milliseconds(patient ? int64_t(huge(c)) : int64_t(rto)));
	if (c.coin()) n.tcpReadLimit = [&](size_t k) { return size_t(1 + c.below(k)); };
	Bytes sent, stream; size_t consumed = 0; bool fin = false, rst = false, dead = false; unsigned ops = 0; uint64_t lastAt = n.nowUs;
	unsigned steps = 1 + unsigned(c.below(12));
	for (unsigned i = 0; i < steps && !dead; ++i) switch (c.below(6)) {
	case 0: { Bytes d = c.bytesUpTo(20000, {1, 1460}); c.desc << " send[" << d.size() << "]"; if (c.oneIn(4) && d.size() > 1) { c.label("short TCP write"); int parts = 1 + int(c.below(3)); n.fault = [&, parts](const char* k, sim::Sock*) mutable { return std::string(k) == "send" && parts-- > 0 ? -int(1 + c.below(d.size())) : 0; }; }
		mustPass(c, "send", [&] { s->Send(d); }); n.fault = nullptr; sent.insert(sent.end(), d.begin(), d.end()); expectEq(c, peer->got, sent, "bytes the peer received"); ++ops; break; }
	case 1: { int err = errOf(c, {EPIPE, ECONNRESET, ENOBUFS, ETIMEDOUT, EHOSTUNREACH}); n.fault = [&](const char* k, sim::Sock*) { return std::string(k) == "send" ? err : 0; }; c.desc << " send!" << err; c.label("TCP send fails");
		mustFail(c, "failing send", err, [&] { s->Send(c.bytes(1 + c.below(100))); }); n.fault = nullptr; ++ops; break; }
	case 2: if (!fin && !rst) { // peer sends
		unsigned k = 1 + unsigned(c.below(4));
		for (unsigned q = 0; q < k; ++q) { if (c.oneIn(4)) { n.seg(fd, 0, {}, sim::Seg::EINTR_ONCE); c.label("receive interrupted by a signal"); } Bytes d = c.bytes(1 + c.below(300)); uint64_t dl = c.coin() ? 0 : c.below(rto * 900); n.tcpSend(fd, dl, d); lastAt = std::max(lastAt, n.nowUs + dl); stream.insert(stream.end(), d.begin(), d.end()); }
		c.desc << " peer sends to " << stream.size(); } break;
	case 3: if (!fin && !rst && c.oneIn(2)) { bool f = c.coin(); (f ? fin : rst) = true; n.seg(fd, 0, {}, f ? sim::Seg::FIN : sim::Seg::RST, ECONNRESET); c.desc << (f ? " fin" : " rst"); } break;
	case 4: case 5: {
		size_t have = stream.size() - consumed; size_t size = c.oneIn(12) ? 0 : c.coin() && have ? 1 + c.below(have) : 1 + c.below(400); Bytes got; c.desc << " recv(" << size << ")"; ++ops;
		auto rx = [&] { got = s->Receive(size); };
		Bytes next(stream.begin() + long(consumed), stream.begin() + long(consumed + std::min(size, have)));
		if (have >= size) { mustPass(c, "receive", rx); expectEq(c, got, next, "received bytes"); consumed += size; break; }
		if (patient && !fin && !rst) break; // would wait for ever
		// not enough data will ever come: timeout, reset or end of stream
		std::string msg; int code = 0;
		t0 = n.nowUs;
		Outcome o = guarded(c, "receive", [&] { try { rx(); } catch (const std::system_error& e) { code = e.code().value(); throw; } }, &msg);
		c.label(fin ? "receive at end of stream" : rst ? "receive on reset connection" : "TCP receive timeout");
		if (o == Outcome::OK) { EXPECT(c, fin, "receive returned although the data never arrived"); EXPECT(c, got.size() <= next.size() && std::equal(got.begin(), got.end(), next.begin()), "receive returned bytes that never arrived: " << hex(got) << " of " << hex(next)); }
		else if (!fin) expectEq(c, code, rst ? ECONNRESET : EAGAIN, "error code of a failing receive");
		if (!fin && !rst) { uint64_t w = n.nowUs - std::max(t0, lastAt); EXPECT(c, w <= rto * 1000 * (n.signalEveryUs ? 2 : 1) + 2000, "silence was noticed after " << w << " us, the timeout is " << rto << " ms"); }
		dead = true; break; }
	}
	if (ops >= 1) c.nontrivial();
	s.reset(); EXPECT(c, peer->closed, "the connection was not closed");
}

void waiting(Case& c, sim::Net& n) {
	c.label("select");
	size_t k = c.oneIn(10) ? 0 : 1 + c.below(4); uint64_t timeout = c.below(200); c.desc << "select on " << k << " sockets for " << timeout << " ms:";
	struct Ctx { unsigned calls = 0; std::vector<Bytes> got; }; std::vector<Ctx> ctx(k + 1); std::vector<BaseSocket::SPtr> socks; std::vector<std::vector<Bytes>> want(k + 1);
	auto mk = [&](size_t i) { auto s = std::make_shared<UDPBoundSocket>(EndPoint("10.0.0.1", int(3000 + i)));
		s->setBeginReceiveHandler([&ctx, i](BaseSocket& b) { ctx[i].calls++; ctx[i].got.push_back(b.Receive(600)); }); return s; };
	for (size_t i = 0; i < k; ++i) socks.push_back(mk(i));
	auto outsider = mk(k);                                  // not in the waiting set
	std::shuffle(socks.begin(), socks.end(), std::minstd_rand(unsigned(c.below(1000))));
	if (!k) { c.label("no sockets"); c.nontrivial(); mustPass(c, "waiting on no sockets", [&] { BaseSocket::select(socks, milliseconds(timeout)); }); return; }
	unsigned d = unsigned(c.below(12)); uint64_t start = n.nowUs, lastIn = start; std::vector<std::pair<uint64_t, std::pair<size_t, Bytes>>> plan;
	for (unsigned i = 0; i < d; ++i) {
		uint64_t at = c.coin() ? 0 : c.below(timeout * 1000 + 1); if (at > timeout * 1000 - std::min<uint64_t>(timeout * 1000, 3000)) at = at > 3000 ? at - 3000 : 0;
		size_t w = c.below(k + 1); plan.push_back({at, {w, c.bytes(1 + c.below(40))}});
	}
	std::stable_sort(plan.begin(), plan.end(), [](auto& a, auto& b) { return a.first < b.first; });
	for (auto& p : plan) { auto q = p.second; c.desc << " @" << p.first << "->" << q.first; n.at(start + p.first, [&n, q] { Datagram g; g.data = q.second; g.srcIp = 1; n.deliver(uint16_t(3000 + q.first), g); }); want[q.first].push_back(q.second); lastIn = std::max(lastIn, start + p.first); }
	bool fail = c.oneIn(10); int err = errOf(c, {EINVAL, ENOMEM, EBADF});
	if (fail) { n.fault = [&](const char* f, sim::Sock*) { return std::string(f) == "select" ? err : 0; }; c.label("select fails"); mustFail(c, "failing wait", err, [&] { BaseSocket::select(socks, milliseconds(timeout)); }); n.fault = nullptr; c.nontrivial(); return; }
	if (!plan.empty() && c.oneIn(6)) { // a timeout that never comes; a handler ends the waiting
		struct Stop {}; uint64_t t = huge(c); if (c.oneIn(3)) n.signalEveryUs = 300 + c.below(timeout * 400 + 5000); bool stopped = false; size_t total = 0, all = 0; for (size_t i = 0; i < k; ++i) all += want[i].size();
		if (!all) return;
		for (size_t i = 0; i < k; ++i) socks[i]->setBeginReceiveHandler([&](BaseSocket& b) { b.Receive(600); if (++total == all) throw Stop(); });
		c.label("huge wait"); c.desc << " huge timeout"; mustPass(c, "wait", [&] { try { BaseSocket::select(socks, milliseconds(t)); } catch (const Stop&) { stopped = true; } });
		EXPECT(c, stopped && total == all, "the wait ended after " << n.nowUs - start << " us, the timeout is " << t << " ms"); c.nontrivial(); return; }
	if (c.oneIn(4)) { n.signalEveryUs = 300 + c.below(timeout * 400 + 5000); c.label("wait interrupted by signals"); c.desc << " interrupted every " << n.signalEveryUs << " us"; }
	uint64_t calls0 = n.steps; mustPass(c, "wait", [&] { BaseSocket::select(socks, milliseconds(timeout)); });
	{ uint64_t calls = n.steps - calls0, cause = 1 + d + (n.signalEveryUs ? (n.nowUs - start) / n.signalEveryUs + 1 : 0); EXPECT(c, calls <= 10 + 10 * cause, "waiting spins: " << calls << " system calls for " << d << " datagrams in " << n.nowUs - start << " us"); }
	uint64_t el = n.nowUs - start;
	EXPECT(c, el + 1000 >= timeout * 1000, "returned after " << el << " us of " << timeout * 1000);
	EXPECT(c, el <= timeout * 1000 + 2000, "returned only after " << el << " us of " << timeout * 1000);
	for (size_t i = 0; i < k; ++i) { expectEq(c, size_t(ctx[i].calls), want[i].size(), "handler calls of socket " + std::to_string(i)); EXPECT(c, ctx[i].got == want[i], "socket " << i << " received other data"); }
	EXPECT(c, ctx[k].calls == 0, "the handler of a socket outside the set was called");
	if (d) c.nontrivial();
}

// descriptor numbers select() cannot hold: everything works, or is refused
void many(Case& c, sim::Net& n) {
	c.label("large descriptor numbers"); c.nontrivial(); n.zeroFd = false; n.fdBase = FD_SETSIZE - 3; unsigned k = 1 + unsigned(c.below(6)); std::vector<BaseSocket::SPtr> socks; unsigned calls = 0;
	for (unsigned i = 0; i < k; ++i) mustPass(c, "construction", [&] { auto s = std::make_shared<UDPBoundSocket>(EndPoint("10.0.0.1", int(3000 + i))); s->setBeginReceiveHandler([&](BaseSocket& b) { ++calls; b.Receive(600); }); socks.push_back(s); });
	unsigned to = unsigned(c.below(k)); sim::Datagram g; g.data = c.bytes(5); g.srcIp = 1; n.deliver(uint16_t(3000 + to), g); c.desc << k << " sockets from descriptor " << n.fdBase;
	bool fits = socks.back()->getSocketFd() < FD_SETSIZE;
	Outcome o = guarded(c, "wait", [&] { try { BaseSocket::select(socks, milliseconds(20)); } catch (const std::system_error&) { throw; } catch (const std::runtime_error& e) { c.fail(std::string("raised something other than std::system_error: ") + e.what()); } });
	if (o == Outcome::OK) EXPECT(c, calls == 1, "the handler was called " << calls << " times"); else EXPECT(c, !fits && calls == 0, "waiting on small descriptors was refused");
	auto peer = std::make_shared<Peer>(); n.onAccepted = [&](int) { return peer; }; sim::ConnectPlan plan; plan.kind = sim::ConnectPlan::ACCEPT_LATER; plan.delayUs = c.below(3000); n.onConnect = [&](uint32_t, uint16_t) { return plan; };
	Outcome t = guarded(c, "connect", [&] { try { TCPSocket s(EndPoint("10.0.0.1", 44818), milliseconds(100)); } catch (const std::system_error&) { throw; } catch (const std::runtime_error& e) { c.fail(std::string("raised something other than std::system_error: ") + e.what()); } });
	bool tFits = n.fdBase + int(k) < FD_SETSIZE; EXPECT(c, t == Outcome::OK || !tFits, "connecting with a small descriptor was refused");
}

void run(Case& c) {
	sim::Scope sc; sim::vary(c, sc.n); Leak leak{c, sc.n};
	sc.n.wallSeed = c.coin() ? c.u32() : 0;
	if (c.oneIn(25)) many(c, sc.n); else switch (c.below(5)) { case 0: case 1: udp(c, sc.n); break; case 2: case 3: tcp(c, sc.n); break; default: waiting(c, sc.n); }
	leak.check();
}
}
extern const Property pbt::theProperty = {"C21",
	"UDP, bound UDP and TCP sockets and socket-set waiting on a simulated network with virtual time: random histories of sends, arrivals, receives of any size, timeouts, segmented/delayed/interrupted TCP streams, end of stream and resets, connect outcomes (immediate, delayed, refused, silent, interrupted), and injected errors of socket/bind/setsockopt/connect/select/send/receive; oracle is a byte/datagram model, the injected errno, and per-descriptor close counts. Non-trivial: at least two transfers or failures on a UDP socket, a connect failure or a transfer on a TCP socket, or a wait with data, failure or an empty set.",
	run, 256, 60000, 1500000, 400, 60000};
