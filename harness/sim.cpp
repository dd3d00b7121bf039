#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <random>
#include <arpa/inet.h>
#include <fcntl.h>
#include <pthread.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
Net* net = nullptr;
unsigned inside = 0, threadsStarted = 0;
namespace { struct Inside { Inside() { ++inside; } ~Inside() { --inside; } }; }
static const int FD_BASE = 600, FD_END = 1200;

std::string ipText(uint32_t ip) {
	char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); return b;
}
void Net::tick() { if (++steps > maxSteps) pbt::abortCase("livelock: the code under test keeps issuing system calls without end"); }
void Net::runDue() {
	while (!events.empty() && events.begin()->first.first <= nowUs) {
		auto fn = std::move(events.begin()->second); events.erase(events.begin()); fn();
	}
}
bool Net::step(uint64_t limit) {
	tick();
	if (!events.empty() && events.begin()->first.first <= limit) {
		nowUs = std::max(nowUs, events.begin()->first.first);
		auto fn = std::move(events.begin()->second); events.erase(events.begin()); fn();
		return true;
	}
	nowUs = std::max(nowUs, limit);
	return false;
}
void Net::advanceTo(uint64_t t) { while (step(t)) {} }
bool Net::deliverFd(int fd, const Datagram& d) {
	auto it = socks.find(fd);
	if (it == socks.end() || !it->second.open) return false;
	it->second.rx.push_back(d); return true;
}
bool Net::deliver(uint16_t port, const Datagram& d, size_t which) {
	std::vector<int> c;
	for (auto& s : socks) if (s.second.open && s.second.type == SOCK_DGRAM && s.second.bound && s.second.bindPort == port) c.push_back(s.first);
	if (c.empty()) return false;
	return deliverFd(c[which % c.size()], d);
}
void Net::seg(int fd, uint64_t delayUs, const Bytes& data, Seg::Kind kind, int err) {
	auto it = socks.find(fd);
	if (it == socks.end() || !it->second.open) return;
	uint64_t t = nowUs + delayUs;
	if (!it->second.segs.empty()) t = std::max(t, it->second.segs.back().at);
	it->second.segs.push_back(Seg{t, data, kind, err});
}
size_t Net::openCount() const { size_t n = 0; for (auto& s : socks) n += s.second.open; return n; }
size_t Net::boundCount(uint16_t p) const { size_t n = 0; for (auto& s : socks) n += s.second.open && s.second.bound && s.second.bindPort == p; return n; }

static Sock* get(int fd) {
	if (!net) return nullptr;
	auto it = net->socks.find(fd);
	return it == net->socks.end() ? nullptr : &it->second;
}
static bool isSim(int fd) { return net && ((fd >= FD_BASE && fd < FD_END) || (fd == 0 && net->socks.count(0))); }
void vary(pbt::Case& c, Net& n) {
	n.zeroFd = c.oneIn(6);
	if (c.oneIn(3)) { // shortly before a counter of micro- or milliseconds in 31, 32 or 53 bits wraps, or right after the system was started
		uint64_t at = c.pick<uint64_t>({0, uint64_t(1) << 31, uint64_t(1) << 32, 1000 * (uint64_t(1) << 31), 1000 * (uint64_t(1) << 32), uint64_t(1) << 53, 86400000000ull * 365 * 20}), before = c.below(c.coin() ? 200000 : 30000000);
		n.nowUs = at ? at - before : before; }
}
// huge timeouts are cut to 317 years
static uint64_t micros(int64_t sec, int64_t us) { return sec > 10000000000ll ? 10000000000000000ull : uint64_t(sec) * 1000000 + uint64_t(us); }
static int fault(const char* call, Sock* s) { return net->fault ? net->fault(call, s) : 0; }

static int doSocket(int domain, int type) {
	net->tick();
	int e = fault("socket", nullptr);
	if (e) { errno = e; return -1; }
	(void)domain;
	if (net->zeroFd && !net->socks.count(0)) { Sock s; s.fd = 0; s.type = type & 0xf; s.nonblock = type & SOCK_NONBLOCK; net->socks.emplace(0, std::move(s)); return 0; }
	for (int fd = net->fdBase; fd < net->fdBase + 400 && fd < FD_END; ++fd) {
		if (net->socks.count(fd)) continue;      // numbers are not reused, so a stale descriptor is noticed
		Sock s; s.fd = fd; s.type = type & 0xf; s.nonblock = type & SOCK_NONBLOCK;
		net->socks.emplace(fd, std::move(s));
		return fd;
	}
	// Only a history longer than the number space reuses numbers, and then those that were closed first.
	Sock* oldest = nullptr;
	for (auto& o : net->socks) if (!o.second.open && (!oldest || o.second.closedSeq < oldest->closedSeq)) oldest = &o.second;
	if (oldest) { int fd = oldest->fd; Sock s; s.fd = fd; s.type = type & 0xf; s.nonblock = type & SOCK_NONBLOCK; net->socks.erase(fd); net->socks.emplace(fd, std::move(s)); return fd; }
	errno = EMFILE; return -1;
}
static Sock* use(int fd, const char* call) {
	net->tick();
	Sock* s = get(fd);
	if (!s) { errno = EBADF; return nullptr; }
	if (!s->open) { pbt::abortCase(std::string(call) + " on a descriptor that was already closed"); }
	return s;
}
// wait until pred() or deadline (absolute); returns pred()
static uint64_t nextSignal() { return net->signalEveryUs ? (net->nowUs / net->signalEveryUs + 1) * net->signalEveryUs : UINT64_MAX; }
template <class P> static bool waitFor(P pred, bool forever, uint64_t deadline, const char* what, bool* interrupted = nullptr) {
	net->runDue();
	while (!pred()) {
		if (forever && net->events.empty()) pbt::abortCase(std::string("blocks for ever in ") + what);
		uint64_t sig = interrupted ? nextSignal() : UINT64_MAX;
		if (sig < deadline || (forever && sig < UINT64_MAX)) { while (!pred() && net->step(sig)) {} if (!pred()) { *interrupted = true; return false; } return true; }
		if (!net->step(forever ? UINT64_MAX : deadline) && !forever) return pred();
		if (forever && net->nowUs == UINT64_MAX) pbt::abortCase(std::string("blocks for ever in ") + what);
	}
	return true;
}
static void settleConnect(Sock& s) {
	if (s.connecting && net->nowUs >= s.connectAt && s.plan.kind != ConnectPlan::SILENT) {
		s.connecting = false;
		if (s.plan.kind == ConnectPlan::ACCEPT_LATER) { s.connected = true; if (net->onAccepted) s.peer = net->onAccepted(s.fd); }
		else { s.failedConnect = true; s.soError = s.plan.err; }
	}
}
static bool tcpReadable(Sock& s) { settleConnect(s); return s.finSeen || (!s.segs.empty() && s.segs.front().at <= net->nowUs) || s.failedConnect; }
static bool readable(Sock& s) { return s.type == SOCK_DGRAM ? !s.rx.empty() : tcpReadable(s); }
static bool writable(Sock& s) { settleConnect(s); return s.type == SOCK_DGRAM || s.connected || s.failedConnect; }
// future instant at which the socket could change state by itself
static uint64_t nextChange(Sock& s) {
	uint64_t t = UINT64_MAX;
	if (s.type == SOCK_STREAM) {
		if (s.connecting && s.plan.kind != ConnectPlan::SILENT) t = std::min(t, s.connectAt);
		if (!s.segs.empty()) t = std::min(t, s.segs.front().at);
	}
	return t;
}

static int doConnect(int fd, const sockaddr* addr) {
	Sock* s = use(fd, "connect");
	if (!s) return -1;
	auto* a = reinterpret_cast<const sockaddr_in*>(addr);
	s->peerIp = ntohl(a->sin_addr.s_addr); s->peerPort = ntohs(a->sin_port);
	int e = fault("connect", s);
	if (e) { errno = e; return -1; }
	if (s->type == SOCK_DGRAM) { s->connected = true; return 0; }
	s->plan = net->onConnect ? net->onConnect(s->peerIp, s->peerPort) : ConnectPlan{ConnectPlan::REFUSE_NOW, 0, ECONNREFUSED};
	switch (s->plan.kind) {
	case ConnectPlan::REFUSE_NOW: errno = s->plan.err; return -1;
	case ConnectPlan::ACCEPT: s->connected = true; if (net->onAccepted) s->peer = net->onAccepted(fd); return 0;
	default: break;
	}
	s->connecting = true; s->connectAt = net->nowUs + s->plan.delayUs;
	if (s->nonblock) { errno = EINPROGRESS; return -1; }
	if (s->plan.kind == ConnectPlan::SILENT) { net->advance(130000000ull); errno = ETIMEDOUT; return -1; }
	net->advanceTo(s->connectAt); settleConnect(*s);
	if (s->connected) return 0;
	errno = s->soError; s->soError = 0; return -1;
}

static ssize_t doSend(int fd, const void* p, size_t n, int flags, const sockaddr* to) {
	Sock* s = use(fd, "send");
	if (!s) return -1;
	int e = fault("send", s);
	if (e == EPIPE && !(flags & MSG_NOSIGNAL)) pbt::abortCase("a failing send would raise SIGPIPE and terminate the process");
	if (e < 0) { // partial send of -e bytes
		n = std::min<size_t>(n, size_t(-e));
	} else if (e) { errno = e; return -1; }
	const uint8_t* b = static_cast<const uint8_t*>(p);
	Bytes data(b, b + n);
	if (s->type == SOCK_DGRAM) {
		Sent m; m.at = net->nowUs; m.fd = fd;
		if (to) { auto* a = reinterpret_cast<const sockaddr_in*>(to); m.ip = ntohl(a->sin_addr.s_addr); m.port = ntohs(a->sin_port);
			if (a->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; } }
		else if (s->connected) { m.ip = s->peerIp; m.port = s->peerPort; }
		else { errno = EDESTADDRREQ; return -1; }
		if (n > 65507) { errno = EMSGSIZE; return -1; }
		m.srcBound = s->bound; m.srcPort = s->bound ? s->bindPort : uint16_t(40000 + fd); m.broadcast = s->broadcast; m.data = data;
		net->sent.push_back(m);
		if (net->onSend) net->onSend(net->sent.back());
		return ssize_t(n);
	}
	settleConnect(*s);
	if (!s->connected) { errno = ENOTCONN; return -1; }
	s->sentTcp.insert(s->sentTcp.end(), data.begin(), data.end());
	if (s->peer) { auto peer = s->peer; peer->onData(fd, data); }
	return ssize_t(n);
}

static ssize_t doRecv(int fd, void* buf, size_t n, int flags, sockaddr* from, socklen_t* fromLen, int* msgFlags = nullptr) {
	Sock* s = use(fd, "recv");
	if (!s) return -1;
	int e = fault("recv", s);
	if (e) { errno = e; return -1; }
	bool nb = s->nonblock || (flags & MSG_DONTWAIT);
	uint8_t* out = static_cast<uint8_t*>(buf);
	if (s->type == SOCK_DGRAM) {
		bool forever = s->recvTimeoutUs == 0 && !nb;
		bool interrupted = false;
		if (!waitFor([&] { return !s->rx.empty(); }, forever, nb ? net->nowUs : net->nowUs + s->recvTimeoutUs, "recv", &interrupted)) { errno = interrupted ? EINTR : EAGAIN; return -1; }
		Datagram d = s->rx.front();
		if (!(flags & MSG_PEEK)) s->rx.pop_front();
		if (d.err) { errno = d.err; return -1; }
		size_t k = std::min(n, d.data.size());
		if (k) memcpy(out, d.data.data(), k);
		if (msgFlags && k < d.data.size()) *msgFlags |= MSG_TRUNC;
		if (from && fromLen) {
			sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(d.srcPort); a.sin_addr.s_addr = htonl(d.srcIp);
			memcpy(from, &a, std::min<size_t>(*fromLen, sizeof a)); *fromLen = sizeof a;
		}
		return ssize_t((flags & MSG_TRUNC) ? d.data.size() : k);
	}
	settleConnect(*s);
	if (!s->connected) { errno = ENOTCONN; return -1; }
	if (n == 0) return 0;
	size_t got = 0;
	for (;;) {
		uint64_t deadline = nb ? net->nowUs : (s->recvTimeoutUs ? net->nowUs + s->recvTimeoutUs : UINT64_MAX);
		net->runDue();
		for (;;) {
			if (s->finSeen || tcpReadable(*s)) break;
			uint64_t t = std::min(nextChange(*s), net->events.empty() ? UINT64_MAX : net->events.begin()->first.first), sig = nextSignal();
			if (t < UINT64_MAX || deadline < UINT64_MAX) if (sig < t && sig < deadline) { net->advanceTo(sig); if (got) return ssize_t(got); errno = EINTR; return -1; }
			if (t > deadline || t == UINT64_MAX) {
				if (deadline == UINT64_MAX) pbt::abortCase("blocks for ever in recv on a TCP connection");
				net->advanceTo(deadline); errno = EAGAIN; return got ? ssize_t(got) : -1;
			}
			net->advanceTo(t);
		}
		if (s->finSeen) return ssize_t(got);
		Seg& g = s->segs.front();
		if (g.kind == Seg::EINTR_ONCE) { if (got) return ssize_t(got); s->segs.pop_front(); errno = EINTR; return -1; }
		if (g.kind == Seg::FIN) { s->finSeen = true; s->segs.pop_front(); return ssize_t(got); }
		if (g.kind == Seg::RST) { if (got) return ssize_t(got); int er = g.err ? g.err : ECONNRESET; errno = er; return -1; }
		size_t lim = n - got;
		if (net->tcpReadLimit) lim = std::max<size_t>(1, std::min(lim, net->tcpReadLimit(lim)));
		size_t k = std::min(lim, g.data.size());
		if (k) memcpy(out + got, g.data.data(), k);
		if (flags & MSG_PEEK) return ssize_t(k);
		got += k;
		g.data.erase(g.data.begin(), g.data.begin() + long(k));
		if (g.data.empty()) s->segs.pop_front();
		if ((flags & MSG_WAITALL) && got < n) continue;
		if (got) return ssize_t(got);
	}
}

// Waits until one of the sockets is ready. Returns false when interrupted by a signal.
static bool waitReady(const std::function<bool()>& ready, const std::vector<Sock*>& watched, bool forever, uint64_t deadline) {
	net->runDue();
	for (;;) {
		net->tick();
		if (ready()) return true;
		uint64_t t = net->events.empty() ? UINT64_MAX : net->events.begin()->first.first;
		for (auto* s : watched) { uint64_t c = nextChange(*s); if (c > net->nowUs) t = std::min(t, c); }
		if (t == UINT64_MAX && forever) pbt::abortCase("blocks for ever in select/poll");
		uint64_t sig = nextSignal();
		if (sig < t && (forever || sig < deadline)) { net->advanceTo(sig); errno = EINTR; return false; }
		if (!forever && t > deadline) { net->advanceTo(deadline); return true; }
		net->advanceTo(t);
	}
}

static int doSelect(int nfds, fd_set* r, fd_set* w, fd_set* x, bool forever, uint64_t timeoutUs) {
	net->tick();
	if (nfds > FD_SETSIZE) { errno = EINVAL; return -1; }
	std::vector<Sock*> ws;
	for (int fd = 0; fd < nfds && fd < FD_SETSIZE; ++fd) {
		bool in = (r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w)) || (x && FD_ISSET(fd, x));
		if (!in) continue;
		Sock* s = get(fd);
		if (!s || !s->open) { errno = EBADF; return -1; }
		ws.push_back(s);
	}
	int e = fault("select", ws.empty() ? nullptr : ws[0]);
	if (e) { errno = e; return -1; }
	auto count = [&](bool store) {
		int n = 0; fd_set rr, rw; FD_ZERO(&rr); FD_ZERO(&rw);
		for (auto* s : ws) {
			if (r && FD_ISSET(s->fd, r) && readable(*s)) { FD_SET(s->fd, &rr); ++n; }
			if (w && FD_ISSET(s->fd, w) && writable(*s)) { FD_SET(s->fd, &rw); ++n; }
		}
		if (store) { if (r) *r = rr; if (w) *w = rw; if (x) FD_ZERO(x); }
		return n;
	};
	if (net->onSelect) net->onSelect(ws.empty() ? -1 : ws[0]->fd);
	if (!forever && timeoutUs == 0) net->runDue();
	else if (!waitReady([&] { return count(false) > 0; }, ws, forever, net->nowUs + timeoutUs)) return -1;
	return count(true);
}
}

using namespace sim;
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, socket, int, int, int);
REAL(int, connect, int, const sockaddr*, socklen_t);
REAL(int, bind, int, const sockaddr*, socklen_t);
REAL(ssize_t, send, int, const void*, size_t, int);
REAL(ssize_t, sendto, int, const void*, size_t, int, const sockaddr*, socklen_t);
REAL(ssize_t, sendmsg, int, const msghdr*, int);
REAL(ssize_t, recv, int, void*, size_t, int);
REAL(ssize_t, recvfrom, int, void*, size_t, int, sockaddr*, socklen_t*);
REAL(ssize_t, recvmsg, int, msghdr*, int);
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(int, select, int, fd_set*, fd_set*, fd_set*, timeval*);
REAL(int, pselect, int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*);
REAL(int, poll, pollfd*, nfds_t, int);
REAL(int, ppoll, pollfd*, nfds_t, const timespec*, const sigset_t*);
REAL(int, setsockopt, int, int, int, const void*, socklen_t);
REAL(int, getsockopt, int, int, int, void*, socklen_t*);
REAL(int, getsockname, int, sockaddr*, socklen_t*);
REAL(int, getpeername, int, sockaddr*, socklen_t*);
REAL(int, fcntl, int, int, ...);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, shutdown, int, int);
REAL(int, close, int);
REAL(int, clock_gettime, clockid_t, timespec*);
REAL(int, gettimeofday, timeval*, void*);
REAL(int, nanosleep, const timespec*, timespec*);
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
REAL(int, usleep, useconds_t);

int __wrap_socket(int d, int t, int p) { Inside in_; if (!net) return __real_socket(d, t, p); return doSocket(d, t); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) { Inside in_; if (!isSim(fd)) return __real_connect(fd, a, l); return doConnect(fd, a); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) { Inside in_;
	if (!isSim(fd)) return __real_bind(fd, a, l);
	Sock* s = use(fd, "bind"); if (!s) return -1;
	int e = fault("bind", s); if (e) { errno = e; return -1; }
	auto* in = reinterpret_cast<const sockaddr_in*>(a);
	uint32_t ip = ntohl(in->sin_addr.s_addr); uint16_t port = ntohs(in->sin_port);
	for (auto& o : net->socks) if (o.first != fd && o.second.open && o.second.bound && o.second.type == s->type && o.second.bindPort == port && port && !(o.second.reuse && s->reuse)) { errno = EADDRINUSE; return -1; }
	s->bound = true; s->bindIp = ip; s->bindPort = port;
	return 0;
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int f) { Inside in_; if (!isSim(fd)) return __real_send(fd, p, n, f); return doSend(fd, p, n, f, nullptr); }
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) { Inside in_; if (!isSim(fd)) return __real_sendto(fd, p, n, f, a, l); return doSend(fd, p, n, f, a); }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) { Inside in_;
	if (!isSim(fd)) return __real_sendmsg(fd, m, f);
	Bytes all; for (size_t i = 0; i < m->msg_iovlen; ++i) { auto* b = static_cast<uint8_t*>(m->msg_iov[i].iov_base); all.insert(all.end(), b, b + m->msg_iov[i].iov_len); }
	return doSend(fd, all.data(), all.size(), f, static_cast<sockaddr*>(m->msg_name));
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { Inside in_; if (!isSim(fd)) return __real_recv(fd, p, n, f); return doRecv(fd, p, n, f, nullptr, nullptr); }
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int f, sockaddr* a, socklen_t* l) { Inside in_; if (!isSim(fd)) return __real_recvfrom(fd, p, n, f, a, l); return doRecv(fd, p, n, f, a, l); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) { Inside in_;
	if (!isSim(fd)) return __real_recvmsg(fd, m, f);
	size_t total = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) total += m->msg_iov[i].iov_len;
	Bytes tmp(total); int mf = 0;
	ssize_t k = doRecv(fd, tmp.data(), total, f, static_cast<sockaddr*>(m->msg_name), m->msg_name ? &m->msg_namelen : nullptr, &mf);
	m->msg_flags = mf; if (k < 0) return k;
	size_t off = 0, have = std::min<size_t>(size_t(k), total);
	for (size_t i = 0; i < m->msg_iovlen && off < have; ++i) { size_t c = std::min(have - off, m->msg_iov[i].iov_len); memcpy(m->msg_iov[i].iov_base, tmp.data() + off, c); off += c; }
	return k;
}
ssize_t __wrap_read(int fd, void* p, size_t n) { Inside in_; if (!isSim(fd)) return __real_read(fd, p, n); return doRecv(fd, p, n, 0, nullptr, nullptr); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { Inside in_; if (!isSim(fd)) return __real_write(fd, p, n); return doSend(fd, p, n, 0, nullptr); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv) { Inside in_;
	if (!net) return __real_select(n, r, w, x, tv);
	if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) { errno = EINVAL; return -1; }
	return doSelect(n, r, w, x, !tv, tv ? micros(tv->tv_sec, tv->tv_usec) : 0);
}
int __wrap_pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* ts, const sigset_t* m) { Inside in_;
	if (!net) return __real_pselect(n, r, w, x, ts, m);
	return doSelect(n, r, w, x, !ts, ts ? micros(ts->tv_sec, ts->tv_nsec / 1000) : 0);
}
static int simPoll(pollfd* p, nfds_t n, bool forever, uint64_t us) {
	net->tick();
	std::vector<Sock*> ws;
	for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; Sock* s = get(p[i].fd); if (s && s->open) ws.push_back(s); }
	int e = fault("select", ws.empty() ? nullptr : ws[0]); if (e) { errno = e; return -1; }
	auto count = [&] {
		int c = 0;
		for (nfds_t i = 0; i < n; ++i) {
			p[i].revents = 0; if (p[i].fd < 0) continue;
			Sock* s = get(p[i].fd);
			if (!s || !s->open) { p[i].revents = POLLNVAL; ++c; continue; }
			if ((p[i].events & POLLIN) && readable(*s)) p[i].revents |= POLLIN;
			if ((p[i].events & POLLOUT) && writable(*s)) p[i].revents |= POLLOUT;
			if (s->failedConnect) p[i].revents |= POLLERR;
			c += p[i].revents != 0;
		}
		return c;
	};
	if (net->onSelect) net->onSelect(ws.empty() ? -1 : ws[0]->fd);
	if (!forever && us == 0) { net->runDue(); return count(); }
	if (!waitReady([&] { return count() > 0; }, ws, forever, net->nowUs + us)) return -1;
	return count();
}
int __wrap_poll(pollfd* p, nfds_t n, int ms) { Inside in_; if (!net) return __real_poll(p, n, ms); return simPoll(p, n, ms < 0, ms < 0 ? 0 : uint64_t(ms) * 1000); }
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t* m) { Inside in_; if (!net) return __real_ppoll(p, n, ts, m); return simPoll(p, n, !ts, ts ? micros(ts->tv_sec, ts->tv_nsec / 1000) : 0); }
int __wrap_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) { Inside in_;
	if (!isSim(fd)) return __real_setsockopt(fd, lvl, opt, v, l);
	Sock* s = use(fd, "setsockopt"); if (!s) return -1;
	int e = fault("setsockopt", s); if (e) { errno = e; return -1; }
	if (lvl == SOL_SOCKET) {
		if (opt == SO_RCVTIMEO && l >= sizeof(timeval)) {
			auto* tv = static_cast<const timeval*>(v);
			if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EDOM; return -1; }
			s->recvTimeoutUs = tv->tv_sec < 0 ? 0 : micros(tv->tv_sec, tv->tv_usec);
		} else if (opt == SO_BROADCAST) s->broadcast = *static_cast<const int*>(v) != 0;
		else if (opt == SO_REUSEADDR || opt == SO_REUSEPORT) s->reuse = *static_cast<const int*>(v) != 0;
	}
	return 0;
}
int __wrap_getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) { Inside in_;
	if (!isSim(fd)) return __real_getsockopt(fd, lvl, opt, v, l);
	Sock* s = use(fd, "getsockopt"); if (!s) return -1;
	int e = fault("getsockopt", s); if (e) { errno = e; return -1; }
	int val = 0;
	if (lvl == SOL_SOCKET && opt == SO_ERROR) { settleConnect(*s); val = s->soError; s->soError = 0; }
	else if (lvl == SOL_SOCKET && opt == SO_TYPE) val = s->type;
	else if (lvl == SOL_SOCKET && opt == SO_BROADCAST) val = s->broadcast;
	if (v && l && *l >= sizeof(int)) { memcpy(v, &val, sizeof val); *l = sizeof val; }
	return 0;
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) { Inside in_;
	if (!isSim(fd)) return __real_getsockname(fd, a, l);
	Sock* s = use(fd, "getsockname"); if (!s) return -1;
	sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(s->bound ? s->bindPort : uint16_t(40000 + fd)); in.sin_addr.s_addr = htonl(s->bindIp);
	memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) { Inside in_;
	if (!isSim(fd)) return __real_getpeername(fd, a, l);
	Sock* s = use(fd, "getpeername"); if (!s) return -1;
	if (!s->connected) { errno = ENOTCONN; return -1; }
	sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(s->peerPort); in.sin_addr.s_addr = htonl(s->peerIp);
	memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) { Inside in_;
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!isSim(fd)) return __real_fcntl(fd, cmd, arg);
	Sock* s = use(fd, "fcntl"); if (!s) return -1;
	int e = fault("fcntl", s); if (e) { errno = e; return -1; }
	if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) { s->nonblock = (int(arg) & O_NONBLOCK) != 0; return 0; }
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) { Inside in_; va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_ioctl(int fd, unsigned long req, ...) { Inside in_;
	va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
	if (!isSim(fd)) return __real_ioctl(fd, req, arg);
	Sock* s = use(fd, "ioctl"); if (!s) return -1;
	if (req == FIONBIO) s->nonblock = *static_cast<int*>(arg) != 0;
	else if (req == FIONREAD) {
		size_t k = 0;
		if (s->type == SOCK_DGRAM) k = s->rx.empty() ? 0 : s->rx.front().data.size();
		else for (auto& g : s->segs) if (g.at <= net->nowUs && g.kind == Seg::DATA) k += g.data.size();
		*static_cast<int*>(arg) = int(k);
	}
	return 0;
}
int __wrap_shutdown(int fd, int how) { Inside in_;
	if (!isSim(fd)) return __real_shutdown(fd, how);
	Sock* s = use(fd, "shutdown"); if (!s) return -1;
	(void)how; s->shut = true; return 0;
}
int __wrap_close(int fd) { Inside in_;
	if (net && !isSim(fd)) pbt::abortCase("close(" + std::to_string(fd) + "): a descriptor the code under test does not own");
	if (!isSim(fd)) return __real_close(fd);
	Sock* s = use(fd, "close"); if (!s) return -1;
	s->open = false; s->closes++; s->closedSeq = ++net->closeSeq;
	if (s->peer) { auto p = s->peer; p->onClose(fd); }
	return 0;
}
static uint64_t simNow() { net->tick(); net->nowUs += net->clockJitterUs; if (net->clockJitterUs) net->runDue(); return net->nowUs; }
// the wall clock: when wallSeed is set somebody keeps setting it forwards and backwards
static uint64_t simWall() {
	uint64_t t = simNow();
	if (net->wallSeed) { net->wallSeed = net->wallSeed * 6364136223846793005ull + 1442695040888963407ull; if (net->wallSeed >> 61 == 0) net->wallOffsetUs = int64_t(net->wallSeed >> 24 & 0xffffffff) - 0x40000000 + 1000000000ll; }
	return t + uint64_t(net->wallOffsetUs);
}
int __wrap_clock_gettime(clockid_t c, timespec* ts) { Inside in_;
	if (!net) return __real_clock_gettime(c, ts);
	uint64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? simWall() : simNow(); ts->tv_sec = time_t(t / 1000000); ts->tv_nsec = long(t % 1000000) * 1000; return 0;
}
int __wrap_gettimeofday(timeval* tv, void* z) { Inside in_;
	if (!net) return __real_gettimeofday(tv, z);
	uint64_t t = simWall(); tv->tv_sec = time_t(t / 1000000); tv->tv_usec = suseconds_t(t % 1000000); return 0;
}
int __wrap_nanosleep(const timespec* ts, timespec* rem) { Inside in_;
	if (!net) return __real_nanosleep(ts, rem);
	net->tick(); net->advance(micros(ts->tv_sec, ts->tv_nsec / 1000)); return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* ts, timespec* rem) { Inside in_;
	if (!net) return __real_clock_nanosleep(c, f, ts, rem);
	net->tick(); uint64_t t = micros(ts->tv_sec, ts->tv_nsec / 1000);
	if (f & TIMER_ABSTIME) { if (t > net->nowUs) net->advanceTo(t); } else net->advance(t);
	return 0;
}
int __wrap_usleep(useconds_t us) { Inside in_; if (!net) return __real_usleep(us); net->tick(); net->advance(us); return 0; }

// std::chrono::steady_clock::now(), system_clock::now(), std::random_device
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { Inside in_;
	if (!net) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	return std::chrono::steady_clock::time_point(std::chrono::microseconds(simNow()));
}
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { Inside in_;
	if (!net) return __real__ZNSt6chrono3_V212system_clock3nowEv();
	return std::chrono::system_clock::time_point(std::chrono::microseconds(simWall()));
}
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* self) { Inside in_;
	auto* c = pbt::currentCase();
	if (!c || !net) return __real__ZNSt13random_device9_M_getvalEv(self);
	return unsigned(c->u32());
}
// threads, whether started through the C or the C++ library
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) { ++threadsStarted; return __real_pthread_create(t, a, f, p); }
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void*, void*, void*);
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* t, void* s, void* f) { ++threadsStarted; __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, s, f); }
}
