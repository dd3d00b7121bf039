// Simulated IPv4 network and clock. Linked with -Wl,--wrap so that every socket call and every
// steady/system clock reading of the code under test ends up here.
#pragma once
#include "engine.h"
#include <deque>
#include <map>
#include <memory>
#include <functional>
#include <netinet/in.h>

namespace sim {
using pbt::Bytes;

struct Datagram { Bytes data; uint32_t srcIp = 0; uint16_t srcPort = 0; int err = 0; };  // host order; err != 0: the receive fails

// What the peer of a TCP connection does; all hooks may be empty.
struct TcpPeer {
	virtual ~TcpPeer() = default;
	virtual void onData(int fd, const Bytes& data) = 0;   // bytes written by the client
	virtual void onClose(int fd) { (void)fd; }            // client closed its end
};
struct ConnectPlan {
	enum Kind { ACCEPT, ACCEPT_LATER, REFUSE_NOW, REFUSE_LATER, SILENT } kind = ACCEPT;
	uint64_t delayUs = 0;
	int err = 0;      // errno for REFUSE_*
};
struct Seg { uint64_t at; Bytes data; enum Kind { DATA, FIN, RST, EINTR_ONCE } kind = DATA; int err = 0; };

struct Sock {
	int fd; int type; bool open = true; bool nonblock = false; bool broadcast = false; bool reuse = false;
	bool bound = false; uint32_t bindIp = 0; uint16_t bindPort = 0;
	uint64_t recvTimeoutUs = 0;
	// UDP
	std::deque<Datagram> rx;
	// TCP
	bool connecting = false, connected = false, failedConnect = false; uint64_t connectAt = 0; ConnectPlan plan; int soError = 0;
	uint32_t peerIp = 0; uint16_t peerPort = 0;
	std::deque<Seg> segs; bool shut = false;
	std::shared_ptr<TcpPeer> peer;
	bool finSeen = false;
	Bytes sentTcp;
	int closes = 0; uint64_t closedSeq = 0;
};

struct Sent { uint64_t at; int fd; uint32_t ip; uint16_t port; uint16_t srcPort; bool srcBound; bool broadcast; Bytes data; };

struct Event { uint64_t at; uint64_t seq; std::function<void()> fn; };

struct Net {
	uint64_t nowUs = 1000000000ull;
	std::map<int, Sock> socks;           // every socket ever created in this case (by fd)
	std::vector<Sent> sent;              // every datagram sent
	std::multimap<std::pair<uint64_t, uint64_t>, std::function<void()>> events;
	uint64_t evSeq = 0, closeSeq = 0;
	uint64_t steps = 0, maxSteps = 2000000;
	bool forbidBlocking = true;          // blocking for ever ends the case as a failure

	// hooks
	std::function<ConnectPlan(uint32_t ip, uint16_t port)> onConnect;
	std::function<std::shared_ptr<TcpPeer>(int fd)> onAccepted;
	std::function<void(const Sent&)> onSend;
	// fault injection: return errno to fail the call, 0 to proceed
	std::function<int(const char* call, Sock* s)> fault;
	std::function<size_t(size_t)> tcpReadLimit;   // how much of the available bytes one recv returns
	std::function<void(int fd)> onSelect;
	uint64_t clockJitterUs = 0;
	uint64_t signalEveryUs = 0;                   // != 0: a signal interrupts blocking select/poll calls at these intervals
	int fdBase = 600;                             // number of the first descriptor
	bool zeroFd = false;                          // the first socket gets descriptor 0, as in a program that has closed its standard input
	uint64_t wallSeed = 0; int64_t wallOffsetUs = 0; // wallSeed != 0: the wall clock is set to other times at will

	void at(uint64_t when, std::function<void()> fn) { events.emplace(std::make_pair(when, evSeq++), std::move(fn)); }
	void after(uint64_t us, std::function<void()> fn) { at(nowUs + us, std::move(fn)); }
	void runDue();
	void advance(uint64_t us) { advanceTo(nowUs + us); }
	void advanceTo(uint64_t t);          // runs events on the way
	bool step(uint64_t limit);           // run next event with time <= limit; false: time is now limit
	// deliver a datagram to a socket bound to port (host order); which = selector among candidates
	bool deliver(uint16_t port, const Datagram& d, size_t which = 0);
	bool deliverFd(int fd, const Datagram& d);
	void tcpSend(int fd, uint64_t delayUs, const Bytes& data) { seg(fd, delayUs, data, Seg::DATA); }
	void seg(int fd, uint64_t delayUs, const Bytes& data, Seg::Kind kind, int err = 0);
	size_t openCount() const;
	size_t boundCount(uint16_t port) const;
	void tick();                         // livelock guard
};
extern Net* net;                         // current network, owned by the test case
extern unsigned threadsStarted;          // by anybody in this process
extern unsigned inside;                  // depth of calls into the simulation
void vary(pbt::Case& c, Net& n);          // how long the system is up; whether descriptor 0 is free
struct Scope { Net n; Scope() { net = &n; } ~Scope() { net = nullptr; } };

inline uint32_t ip(uint8_t a, uint8_t b, uint8_t c, uint8_t d) { return (uint32_t(a) << 24) | (uint32_t(b) << 16) | (uint32_t(c) << 8) | d; }
std::string ipText(uint32_t ip);
}
