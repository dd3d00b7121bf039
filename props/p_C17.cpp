// C17: discovery of devices.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "DiscoveryManager.h"
#include <cerrno>
#include <set>
#include <system_error>
using namespace pbt;
using namespace eipScanner;
using wire::Item;

namespace {
struct Dev { uint32_t ip = 0; uint16_t port = 0, vendor = 0, type = 0, product = 0, status = 0; uint8_t major = 0, minor = 0; uint32_t serial = 0; std::string name; };
Dev gen(Case& c, size_t maxName) {
	Dev d; d.ip = c.u32(); d.port = c.oneIn(3) ? c.u16() : 44818; d.vendor = c.u16(); d.type = c.u16(); d.product = c.u16(); d.status = c.u16(); d.major = c.u8(); d.minor = c.u8(); d.serial = c.u32(); d.name = c.text(c.size(maxName, {0, 1, maxName})); return d; }
Bytes body(Case& c, const Dev& d) { // identity item without trailing bytes
	Bytes tail = c.oneIn(4) ? c.bytes(8) : Bytes(8); tail.resize(8);
	return wire::W().u16(c.oneIn(4) ? c.u16() : 1).u16be(2).u16be(d.port).u32be(d.ip).raw(tail).u16(d.vendor).u16(d.type).u16(d.product).u8(d.major).u8(d.minor).u16(d.status).u32(d.serial).shortStr(d.name).b; }
std::string same(const IdentityItem& g, const Dev& w) {
	std::ostringstream o; auto& i = g.identityObject;
	auto ck = [&](const char* n, auto a, auto b) { if (!(a == b)) o << n << " got <" << a << "> want <" << b << "> "; };
	ck("vendor id", i.getVendorId(), w.vendor); ck("device type", i.getDeviceType(), w.type); ck("product code", i.getProductCode(), w.product); ck("major revision", int(i.getRevision().getMajorRevision()), int(w.major)); ck("minor revision", int(i.getRevision().getMinorRevision()), int(w.minor));
	ck("status", i.getStatus(), w.status); ck("serial number", i.getSerialNumber(), w.serial); ck("product name", i.getProductName(), w.name); ck("address", g.socketAddress.getHost(), sim::ipText(w.ip)); ck("port", g.socketAddress.getPort(), int(w.port));
	return o.str();
}
struct Answer { Bytes data; std::vector<Dev> devs; bool bad = false; uint64_t at = 0; };

Answer answer(Case& c) {
	Answer a; std::vector<Item> items; std::vector<bool> isDev; size_t budget = 504 - 26; size_t n = c.oneIn(3) ? 1 + c.below(6) : 1; if (c.oneIn(12)) n = 0;
	std::vector<size_t> bodyLen;
	for (size_t k = 0; k < n; ++k) {
		if (c.oneIn(6)) { Item it; it.type = c.pick({uint16_t(0), uint16_t(0x86), uint16_t(0x100), uint16_t(0xB2), uint16_t(0x8001), uint16_t(0x0D)}); it.data = c.bytesUpTo(60); if (it.data.size() + 4 > budget) break; budget -= it.data.size() + 4; items.push_back(it); isDev.push_back(false); bodyLen.push_back(0); continue; }
		if (budget < 37 + 5 + 1) break; size_t room = std::min<size_t>(255, budget - 37 - 5 - 1); Dev d = gen(c, room); Item it; it.type = 0x0C; it.data = body(c, d); size_t bl = it.data.size();
		if (!c.oneIn(4)) it.data.push_back(c.coin() ? 0xFF : c.u8()); // state byte, as the specification has it
		if (c.oneIn(6)) { size_t used = 4 + it.data.size(); Bytes t = c.bytesUpTo(budget > used ? std::min<size_t>(budget - used, 30) : 0); it.data.insert(it.data.end(), t.begin(), t.end()); }
		budget -= it.data.size() + 4; a.devs.push_back(d); items.push_back(it); isDev.push_back(true); bodyLen.push_back(bl);
	}
	bool corrupt = c.below(3) == 2;
	Bytes hdr = wire::W().u16(0x63).u16(0).u32(c.oneIn(4) ? c.u32() : 0).u32(0).zeros(8).u32(0).b;
	auto build = [&](uint16_t count) { Bytes p = wire::W().u16(count).b; for (auto& i : items) p = wire::W().raw(p).u16(i.type).u16(i.data.size()).raw(i.data).b; Bytes h = hdr; h[2] = uint8_t(p.size()); h[3] = uint8_t(p.size() >> 8); return wire::W().raw(h).raw(p).b; };
	if (!corrupt) { a.data = build(uint16_t(items.size())); if (a.data.size() > 504) throw std::logic_error("generator: answer too long"); return a; }
	a.bad = true; c.label("malformed answer");
	switch (c.below(4)) {
	case 0: { // cut anywhere
		Bytes full = build(uint16_t(items.size())); size_t need = full.size(); a.data = full; a.data.resize(c.oneIn(4) ? c.below(std::min<size_t>(27, need)) : c.below(need)); c.label("datagram cut"); break; }
	case 1: { // more items announced than there are
		a.data = build(uint16_t(items.size() + 1 + c.below(c.coin() ? 3 : 65535 - items.size()))); c.label("too many items announced"); break; }
	case 2: { // an identity item that ends early, in an otherwise sound packet
		std::vector<size_t> w; for (size_t k = 0; k < items.size(); ++k) if (isDev[k]) w.push_back(k);
		if (w.empty()) { a.data.clear(); break; }
		size_t k = w[c.below(w.size())]; items[k].data.resize(c.oneIn(2) ? bodyLen[k] - 1 - c.below(std::min<size_t>(bodyLen[k], 3)) : c.below(bodyLen[k])); size_t idx = 0; for (size_t j = 0; j < k; ++j) idx += isDev[j]; a.devs.erase(a.devs.begin() + long(idx)); a.data = build(uint16_t(items.size())); c.label("identity item cut"); break; }
	default: { // an item longer than the packet
		if (items.empty()) { a.data.clear(); break; }
		a.data = build(uint16_t(items.size())); size_t last = items.back().data.size(), pos = a.data.size() - last - 2; uint32_t len = uint32_t(last + 1 + c.below(c.coin() ? 8 : 60000)); a.data[pos] = uint8_t(len); a.data[pos + 1] = uint8_t(len >> 8); c.label("item longer than the packet"); break; }
	}
	return a;
}
void run(Case& c) {
	sim::Scope sc; auto& n = sc.n; sim::vary(c, n); n.wallSeed = c.coin() ? c.u32() : 0; bool signals = c.oneIn(4); if (signals) { n.signalEveryUs = 500 + c.below(c.coin() ? 20000 : 2000000); c.label("signals"); }
	uint32_t ip = c.coin() ? sim::ip(192, 168, 1, 255) : c.u32(); uint16_t port = c.coin() ? 44818 : uint16_t(1 + c.below(65535)); uint64_t timeout = c.range(1, 5000); // ms
	c.desc << sim::ipText(ip) << ":" << port << " timeout " << timeout;
	DiscoveryManager m(sim::ipText(ip), port, std::chrono::milliseconds(timeout));
	unsigned rounds = 1 + unsigned(c.below(2));
	for (unsigned round = 0; round < rounds; ++round) {
		unsigned fk = unsigned(c.below(10)); // 0-6 none, 7 construction/option, 8 send, 9 receive
		int err = c.pick({ENETUNREACH, ECONNREFUSED, ENOBUFS, EPERM, ENOMEM, EACCES, ENETDOWN}); const char* call = fk == 7 ? (c.coin() ? "socket" : "setsockopt") : fk == 8 ? "send" : nullptr;
		std::vector<Answer> as; uint64_t t = 0; size_t k = c.oneIn(4) ? c.below(12) : c.below(4); bool open = true; size_t inTime = 0;
		for (size_t i = 0; i < k; ++i) {
			Answer a = answer(c); unsigned gap = unsigned(c.below(6)); uint64_t dt = gap == 0 ? 0 : gap < 5 ? c.below(timeout * 1000) : timeout * 1000 * (signals ? 2 : 1) + 1 + c.below(timeout * 1000 + 5000); t += dt; a.at = t;
			if (dt > timeout * 1000) open = false;
			if (open) inTime = i + 1; as.push_back(a); }
		// an injected receive error replaces the end of the collection at some point
		size_t errAt = fk == 9 ? c.below(inTime + 1) : SIZE_MAX; uint64_t errTime = errAt == SIZE_MAX ? 0 : errAt == 0 ? 0 : as[errAt - 1].at;
		c.desc << " |"; for (size_t i = 0; i < k; ++i) c.desc << " " << as[i].at / 1000 << "ms:" << (as[i].bad ? "bad" : "good") << as[i].devs.size() << (i < inTime ? "" : "(late)"); if (fk >= 7) c.desc << " failing " << (call ? call : "receive") << " errno " << err;
		size_t sentBefore = n.sent.size(); unsigned asked = 0;
		n.onSend = [&](const sim::Sent& s) {
			EXPECT(c, ++asked == 1, "more than one request sent"); EXPECT(c, s.ip == ip && s.port == port, "request went to " << sim::ipText(s.ip) << ":" << s.port); EXPECT(c, s.broadcast, "the socket may not send to a broadcast address");
			wire::Encaps e; if (!wire::parse(s.data, e) || e.cmd != 0x63 || !e.data.empty() || e.status || e.options) c.fail("request is not ListIdentity: " + hex(s.data));
			uint64_t t0 = n.nowUs; int fd = s.fd;
			for (size_t i = 0; i <= as.size(); ++i) {
				if (i == errAt) n.at(t0 + errTime, [&n, fd, err] { sim::Datagram d; d.err = err; n.deliverFd(fd, d); });
				if (i < as.size()) { Bytes b = as[i].data; uint32_t src = c.u32(); n.at(t0 + as[i].at, [&n, fd, b, src] { sim::Datagram d; d.data = b; d.srcIp = src; d.srcPort = 44818; n.deliverFd(fd, d); }); }
			} };
		if (call) n.fault = [&](const char* w, sim::Sock*) { return std::string(w) == call ? err : 0; };
		IdentityItem::Vec got; bool threw = false; uint64_t t0 = n.nowUs, calls0 = n.steps;
		if (call || errAt != SIZE_MAX) {
			try { got = m.discover(); }
			catch (const std::system_error& e) { threw = true; EXPECT(c, e.code() == std::error_condition(err, std::generic_category()), "error code " << e.code().value() << " instead of " << err); }
			catch (const Failure&) { throw; } catch (const std::exception& e) { c.fail(std::string("raised something other than std::system_error: ") + e.what()); }
			EXPECT(c, threw, "a failing " << (call ? call : "receive") << " was not raised"); c.label("socket failure"); c.nontrivial();
		} else {
			mustPass(c, "discovery", [&] { got = m.discover(); });
			expectEq(c, n.sent.size() - sentBefore, size_t(1), "requests sent");
			{ uint64_t calls = n.steps - calls0, signalled = signals ? (n.nowUs - t0) / n.signalEveryUs + 1 : 0; EXPECT(c, calls <= 40 + 10 * (as.size() + signalled), "waiting spins: " << calls << " system calls in " << n.nowUs - t0 << " us"); }
			uint64_t lastAt = inTime ? as[inTime - 1].at : 0; EXPECT(c, n.nowUs - t0 >= lastAt + timeout * 1000, "gave up before the timeout"); EXPECT(c, n.nowUs - t0 <= lastAt + timeout * 1000 * (signals ? 2 : 1) + 2000, "waited for " << n.nowUs - t0 << " us, the last answer came at " << lastAt << " us");
			// expected entries: all devices of good answers; a malformed answer may contribute a leading part of its intact items
			unsigned devs = 0, good = 0; std::string why;
			std::set<size_t> at{0}; // numbers of entries that the answers so far can account for
			for (size_t i = 0; i < inTime; ++i) {
				auto& a = as[i]; std::set<size_t> next; if (!a.bad) { ++good; devs += unsigned(a.devs.size()); }
				for (size_t g : at) { size_t k2 = 0; if (a.bad) next.insert(g); while (k2 < a.devs.size() && g + k2 < got.size()) { std::string e = same(got[g + k2], a.devs[k2]); if (!e.empty()) { if (!a.bad) why = "entry " + std::to_string(g + k2) + " differs from answer " + std::to_string(i) + ": " + e; break; } ++k2; if (a.bad) next.insert(g + k2); } if (!a.bad && k2 == a.devs.size()) next.insert(g + k2); }
				if (next.empty()) c.fail("device of answer " + std::to_string(i) + " is missing or differs (" + std::to_string(got.size()) + " entries): " + why);
				at = next;
			}
			if (!at.count(got.size())) c.fail("an entry does not stem from any well-formed answer: " + std::to_string(got.size()) + " entries, " + std::to_string(devs) + " devices in good answers");
			if (devs) { c.nontrivial(); c.label("devices found"); } if (devs > 1) c.label("several devices"); if (good > 1) c.label("several answers"); if (inTime < k) c.label("answer after the timeout"); if (inTime > good) c.nontrivial();
		}
		n.fault = nullptr; n.onSend = nullptr; n.events.clear();
		for (auto& s : n.socks) EXPECT(c, !s.second.open && s.second.closes == 1, "socket " << s.first << " was closed " << s.second.closes << " times");
	}
}
}
extern const Property pbt::theProperty = {"C17",
	"1-2 discoveries on a simulated network: 0-11 answers at random times (some after the timeout) with 0-6 items each (identity items with names of any length that fits a 504-byte answer, other item types, trailing bytes), a third of them malformed (cut datagram, too many items announced, cut identity item, item longer than the packet), or a failing socket/option/send/receive. Oracle: the model list of devices in arrival order; every entry must match it, timing of the end, error codes, and closed sockets. Non-trivial: a device was found, a malformed answer arrived in time, or a socket failure was injected.",
	run, 512, 100000, 2500000, 1500, 50000};
