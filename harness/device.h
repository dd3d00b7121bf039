// A scripted EtherNet/IP device: decodes what the code under test sends with the independent codec,
// checks the framing strictly, and answers with bytes from a handler.
#pragma once
#include "engine.h"
#include "wire.h"
#include "SessionInfoIf.h"
#include "cip/EPath.h"

namespace dev {
using pbt::Bytes; using pbt::Case;

struct Exchange { wire::Request req; std::vector<wire::Item> extra; };

class Device : public eipScanner::SessionInfoIf {
public:
	Case& c; uint32_t handle; std::string host; int port;
	mutable std::vector<Exchange> log;
	// answer with a structured reply
	std::function<wire::Reply(const Exchange&)> onRequest;
	// or answer with arbitrary encapsulation payload bytes (takes precedence when set)
	std::function<Bytes(const Exchange&)> onRaw;
	// called before anything else; may throw
	std::function<void()> before;
	bool expectEight = false;
	mutable uint64_t packets = 0;

	Device(Case& cc, uint32_t h = 0x11223344, std::string ho = "10.0.0.1", int po = 44818) : c(cc), handle(h), host(std::move(ho)), port(po) {}

	static Exchange decode(Case& c, const Bytes& frame, uint32_t handle, bool eight) {
		wire::Encaps e;
		if (!wire::parse(frame, e)) c.fail("request is not a well-formed encapsulation frame: " + pbt::hex(frame));
		pbt::expectEq(c, e.cmd, uint16_t(0x6F), "encapsulation command of an explicit request");
		pbt::expectEq(c, e.handle, handle, "session handle of an explicit request");
		pbt::expectEq(c, e.status, 0u, "encapsulation status of a request");
		pbt::expectEq(c, e.options, 0u, "encapsulation options of a request");
		wire::R r(e.data);
		pbt::expectEq(c, r.u32(), 0u, "interface handle"); pbt::expectEq(c, r.u16(), uint16_t(0), "SendRRData timeout");
		std::vector<wire::Item> items;
		Bytes rest = r.rest();
		if (!r.ok || !wire::parseItems(rest, items)) c.fail("request does not hold a well-formed common packet: " + pbt::hex(rest));
		if (items.size() < 2) c.fail("request common packet has fewer than two items");
		if (items[0].type != 0 || !items[0].data.empty()) c.fail("first item of a request is not a null address item");
		pbt::expectEq(c, items[1].type, uint16_t(0xB2), "type of the request's data item");
		Exchange x;
		if (!wire::parseRequest(items[1].data, x.req)) c.fail("malformed message-router request: " + pbt::hex(items[1].data));
		Bytes want = wire::packPath(x.req.path, eight);
		if (want != x.req.rawPath) c.fail("request path is not in the configured form: " + pbt::hex(x.req.rawPath));
		x.extra.assign(items.begin() + 2, items.end());
		return x;
	}

	eipScanner::eip::EncapsPacket sendAndReceive(const eipScanner::eip::EncapsPacket& packet) const override {
		++packets;
		if (packets > 100000) pbt::abortCase("livelock: requests are sent without end");
		Exchange x = decode(c, packet.pack(), handle, expectEight);
		log.push_back(x);
		if (before) before();
		Bytes payload;
		if (onRaw) payload = onRaw(x);
		else if (onRequest) { wire::Reply r = onRequest(x); payload = wire::rrReply(r); }
		eipScanner::eip::EncapsPacket p;
		p.expand(wire::encaps(0x6F, handle, 0, payload));
		return p;
	}
	eipScanner::cip::CipUdint getSessionHandle() const override { return handle; }
	eipScanner::sockets::EndPoint getRemoteEndPoint() const override { return eipScanner::sockets::EndPoint(host, port); }
};
inline eipScanner::cip::EPath toEPath(const wire::Path& p) {
	using eipScanner::cip::EPath;
	return p.n == 1 ? EPath(p.id[0]) : p.n == 2 ? EPath(p.id[0], p.id[1]) : EPath(p.id[0], p.id[1], p.id[2]);
}
// A CIP error status to refuse with: anything non-zero
inline uint8_t errorStatus(Case& c) { return uint8_t(1 + c.below(255)); }
}
