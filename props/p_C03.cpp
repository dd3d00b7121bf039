// C03: encapsulation packets against an independent frame codec; packet factory.
#include "engine.h"
#include "wire.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
using namespace pbt;
using namespace eipScanner::eip;
using wire::Encaps;

namespace {
Encaps genFrame(Case& c) {
	Encaps e; e.cmd = c.u16(); e.handle = c.u32(); e.status = c.u32(); e.ctx = c.bytes(8); e.options = c.u32();
	e.data = c.bytesUpTo(65535, {1, 255, 256, 65534, 65535}); e.len = uint16_t(e.data.size());
	return e;
}
bool same(const Encaps& a, const Encaps& b) { return wire::pack(a) == wire::pack(b); }
void compare(Case& c, const EncapsPacket& p, const Encaps& m, const char* what) {
	std::string w(what);
	expectEq(c, uint16_t(p.getCommand()), m.cmd, w + ": command");
	expectEq(c, p.getLength(), uint16_t(m.data.size()), w + ": length");
	expectEq(c, p.getSessionHandle(), m.handle, w + ": session handle");
	expectEq(c, uint32_t(p.getStatusCode()), m.status, w + ": status");
	expectEq(c, Bytes(p.getData()), m.data, w + ": payload");
	expectEq(c, p.pack(), wire::pack(m), w + ": encoded frame");
}
// a random change through the public setters
void mutate(Case& c, EncapsPacket& p, Encaps& m) {
	switch (c.below(4)) {
	case 0: m.cmd = c.u16(); p.setCommand(EncapsCommands(m.cmd)); c.desc << " setCommand"; break;
	case 1: m.handle = c.u32(); p.setSessionHandle(m.handle); c.desc << " setSessionHandle"; break;
	case 2: m.status = c.u32(); p.setStatusCode(EncapsStatusCodes(m.status)); c.desc << " setStatusCode"; break;
	case 3: m.data = c.bytesUpTo(65535, {0, 255, 256, 65535}); m.len = uint16_t(m.data.size()); p.setData(m.data); c.desc << " setData[" << m.data.size() << "]"; break;
	}
}
EncapsPacket decode(Case& c, const Encaps& m) { EncapsPacket p; mustPass(c, "decoding a well-formed frame", [&] { p.expand(wire::pack(m)); }); return p; }

void run(Case& c) {
	switch (c.below(5)) {
	case 0: { // construct and set
		EncapsPacket p; Encaps m; m.len = 0; c.desc << "new packet:"; c.label("build");
		compare(c, p, m, "default packet");
		unsigned n = 1 + unsigned(c.below(6));
		for (unsigned i = 0; i < n; ++i) { mutate(c, p, m); compare(c, p, m, "built packet"); }
		EncapsPacket q = decode(c, m); EXPECT(c, q == p && p == q && !(p != q), "decoded packet differs from the one that was encoded");
		c.nontrivial(); break; }
	case 1: { // decode, re-encode, modify, re-encode; reuse the object
		c.label("decode"); EncapsPacket p; unsigned rounds = 1 + unsigned(c.below(3));
		for (unsigned k = 0; k < rounds; ++k) {
			Encaps m = genFrame(c); c.desc << "decode " << hex(wire::pack(m), 40) << ";";
			mustPass(c, "decoding a well-formed frame", [&] { p.expand(wire::pack(m)); });
			compare(c, p, m, "decoded packet");
			expectEq(c, EncapsPacket::getLengthFromHeader(wire::pack(m)), m.data.size(), "length read from the frame");
			Bytes head = wire::pack(m); head.resize(24);
			expectEq(c, EncapsPacket::getLengthFromHeader(head), m.data.size(), "length read from the header alone");
			if (c.coin()) { mutate(c, p, m); compare(c, p, m, "modified packet"); }
			EncapsPacket copy(p); compare(c, copy, m, "copied packet"); EXPECT(c, copy == p, "copy differs");
		}
		c.nontrivial(); break; }
	case 2: { // equality
		c.label("equality"); Encaps a = genFrame(c), b = a;
		const char* f = "nothing";
		switch (c.below(8)) {
		case 0: break;
		case 1: b.cmd ^= uint16_t(1u << c.below(16)); f = "command"; break;
		case 2: b.handle ^= 1u << c.below(32); f = "handle"; break;
		case 3: b.status ^= 1u << c.below(32); f = "status"; break;
		case 4: b.ctx[c.below(8)] ^= uint8_t(1u << c.below(8)); f = "context"; break;
		case 5: b.options ^= 1u << c.below(32); f = "options"; break;
		case 6: if (!b.data.empty()) b.data[c.below(b.data.size())] ^= uint8_t(1u << c.below(8)); f = "payload byte"; break;
		case 7: if (c.coin() && !b.data.empty()) b.data.pop_back(); else if (b.data.size() < 65535) b.data.push_back(0); f = "payload length"; break;
		}
		b.len = uint16_t(b.data.size());
		c.desc << "equality, differing in " << f << ": " << hex(wire::pack(a), 40); c.label((std::string("differ in ") + f).c_str());
		EncapsPacket p = decode(c, a), q = decode(c, b);
		bool eq = same(a, b);
		EXPECT(c, (p == q) == eq && (q == p) == eq && (p != q) == !eq && (q != p) == !eq && p == p, "equality does not reflect that the frames differ in " << f);
		c.nontrivial(); break; }
	case 3: { // rejection
		c.label("reject"); Encaps m = genFrame(c); Bytes b = wire::pack(m);
		switch (c.below(4)) {
		case 0: b.resize(c.below(24)); break;
		case 1: b.resize(24 + c.below(m.data.size() + 1)); break;
		case 2: { Bytes x = c.bytes(1 + c.below(40)); b.insert(b.end(), x.begin(), x.end()); break; }
		case 3: { uint16_t l = c.u16(); b[2] = uint8_t(l); b[3] = uint8_t(l >> 8); break; }
		}
		Encaps dummy; bool ok = wire::parse(b, dummy);
		c.desc << "frame " << hex(b, 40);
		EncapsPacket p; if (c.coin()) p = decode(c, genFrame(c));
		if (ok) mustPass(c, "well-formed frame", [&] { p.expand(b); }); else { mustThrow(c, "malformed frame", [&] { p.expand(b); }); c.nontrivial(); }
		break; }
	default: { // factory
		c.label("factory"); EncapsPacketFactory f; Encaps m;
		switch (c.below(4)) {
		case 0: m.cmd = 0x65; m.data = {1, 0, 0, 0}; c.desc << "RegisterSession"; m.len = 4; compare(c, f.createRegisterSessionPacket(), m, "RegisterSession"); break;
		case 1: m.cmd = 0x66; m.handle = c.u32(); c.desc << "UnRegisterSession " << m.handle; compare(c, f.createUnRegisterSessionPacket(m.handle), m, "UnRegisterSession"); break;
		case 2: { m.cmd = 0x6F; m.handle = c.u32(); uint16_t t = c.u16(); Bytes d = c.bytesUpTo(65529, {0, 255, 65529});
			m.data = wire::W().u32(0).u16(t).raw(d).b; m.len = uint16_t(m.data.size()); c.desc << "SendRRData handle " << m.handle << " timeout " << t << " data[" << d.size() << "]";
			compare(c, f.createSendRRDataPacket(m.handle, t, d), m, "SendRRData"); break; }
		case 3: m.cmd = 0x63; c.desc << "ListIdentity"; compare(c, f.createListIdentityPacket(), m, "ListIdentity"); break;
		}
		c.nontrivial(); break; }
	}
}
}
extern const Property pbt::theProperty = {"C03",
	"Random packets built through setters, random well-formed frames (payload 0..65535 bytes, arbitrary command/handle/status/context/options) decoded, modified, copied and re-encoded, pairs of frames differing in one chosen field, truncated/extended/mis-sized frames, and the four ready-made requests with random parameters; everything compared with an independent frame codec. Non-trivial: every case that built, decoded, compared or had to reject a packet (cases whose corruption left a well-formed frame do not count).",
	run, 512, 120000, 3000000, 200, 160000};
