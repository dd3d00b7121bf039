// C06: message-router replies and forward-open replies.
#include "engine.h"
#include "wire.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
using namespace pbt;
using namespace eipScanner::cip;

namespace {
wire::Reply genReply(Case& c) {
	wire::Reply r; r.service = c.u8(); r.status = c.coin() ? c.u8() : uint8_t(c.below(256));
	r.ext.resize(c.size(255, {1, 127, 128, 129, 254, 255})); for (auto& e : r.ext) e = r.ext.size() < 30 ? c.u16() : uint16_t(c.below(65536));
	r.data = c.bytesUpTo(5000, {0, 1, 255, 256, 65000}); return r;
}
std::string show(const wire::Reply& r) { std::ostringstream s; s << "service " << int(r.service) << " status " << int(r.status) << " ext[" << r.ext.size() << "] data[" << r.data.size() << "] " << hex(r.data, 16); return s.str(); }
void compare(Case& c, const MessageRouterResponse& m, const wire::Reply& r, const char* what) {
	std::string w(what);
	expectEq(c, int(uint8_t(m.getServiceCode())), int(r.service), w + ": service code");
	expectEq(c, int(uint8_t(m.getGeneralStatusCode())), int(r.status), w + ": general status");
	expectEq(c, m.getAdditionalStatus().size(), r.ext.size(), w + ": number of additional status words");
	for (size_t i = 0; i < r.ext.size(); ++i) expectEq(c, m.getAdditionalStatus()[i], r.ext[i], w + ": additional status word " + std::to_string(i));
	expectEq(c, Bytes(m.getData()), r.data, w + ": data");
}
struct Fwd { uint32_t o2t, t2o; uint16_t serial, vendor; uint32_t oserial, o2tApi, t2oApi; Bytes app; };
Fwd genFwd(Case& c) { Fwd f; f.o2t = c.u32(); f.t2o = c.u32(); f.serial = c.u16(); f.vendor = c.u16(); f.oserial = c.u32(); f.o2tApi = c.u32(); f.t2oApi = c.u32(); f.app = c.bytes(2 * c.size(255, {1, 127, 128, 255})); return f; }
Bytes pack(const Fwd& f, uint8_t reserved) { return wire::W().u32(f.o2t).u32(f.t2o).u16(f.serial).u16(f.vendor).u32(f.oserial).u32(f.o2tApi).u32(f.t2oApi).u8(f.app.size() / 2).u8(reserved).raw(f.app).b; }

void run(Case& c) {
	switch (c.below(4)) {
	case 0: { // decode replies, reusing the object
		c.label("reply"); MessageRouterResponse m; unsigned n = 1 + unsigned(c.below(3));
		for (unsigned i = 0; i < n; ++i) {
			wire::Reply r = genReply(c); Bytes b = wire::packReply(r); b[1] = c.u8();   // reserved byte is ignored
			c.desc << show(r) << "; ";
			mustPass(c, "well-formed reply", [&] { m.expand(b); }); compare(c, m, r, "reply");
			MessageRouterResponse copy(m); compare(c, copy, r, "copied reply");
			if (!r.ext.empty()) c.label("reply with additional status"); if (r.status) c.label("error status");
		}
		if (c.oneIn(4)) { Bytes d = c.bytesUpTo(100); auto s = uint8_t(c.u8()); m.setData(d); m.setGeneralStatusCode(GeneralStatusCodes(s)); expectEq(c, Bytes(m.getData()), d, "data set on a reply"); expectEq(c, int(uint8_t(m.getGeneralStatusCode())), int(s), "status set on a reply"); }
		if (c.oneIn(4)) { std::vector<eipScanner::eip::CommonPacketItem> it(c.below(4)); for (auto& x : it) x = eipScanner::eip::CommonPacketItem(eipScanner::eip::CommonPacketItemIds(c.u16()), c.bytesUpTo(20)); m.setAdditionalPacketItems(it); EXPECT(c, m.getAdditionalPacketItems() == it, "additional items set on a reply differ"); }
		c.nontrivial(); break; }
	case 1: { // reject
		c.label("reject reply"); wire::Reply r = genReply(c); Bytes b = wire::packReply(r); size_t need = 4 + 2 * r.ext.size();
		size_t cut = c.coin() ? c.below(need) : need - 1 - std::min<size_t>(need - 1, c.below(3)); b.resize(cut);
		c.desc << "reply cut to " << cut << " of " << need << ": " << hex(b, 24);
		MessageRouterResponse m; if (c.coin()) m.expand(wire::packReply(genReply(c)));
		mustThrow(c, "reply shorter than its header and additional status", [&] { m.expand(b); });
		wire::Reply q = genReply(c); mustPass(c, "reply after a failed decode", [&] { m.expand(wire::packReply(q)); }); compare(c, m, q, "reply after a failed decode");
		c.nontrivial(); break; }
	case 2: { // forward open
		c.label("forward-open reply"); connectionManager::ForwardOpenResponse o; unsigned n = 1 + unsigned(c.below(3));
		for (unsigned i = 0; i < n; ++i) {
			Fwd f = genFwd(c); Bytes b = pack(f, c.u8()); c.desc << "forward-open reply " << hex(b, 40) << "; ";
			mustPass(c, "well-formed forward-open reply", [&] { o.expand(b); });
			expectEq(c, o.getO2TNetworkConnectionId(), f.o2t, "O2T id"); expectEq(c, o.getT2ONetworkConnectionId(), f.t2o, "T2O id");
			expectEq(c, o.getConnectionSerialNumber(), f.serial, "connection serial"); expectEq(c, o.getOriginatorVendorId(), f.vendor, "vendor id");
			expectEq(c, o.getOriginatorSerialNumber(), f.oserial, "originator serial"); expectEq(c, o.getO2TApi(), f.o2tApi, "O2T interval"); expectEq(c, o.getT2OApi(), f.t2oApi, "T2O interval");
			expectEq(c, size_t(o.getApplicationReplaySize()), f.app.size() / 2, "application reply size"); expectEq(c, Bytes(o.getApplicationReplay()), f.app, "application reply");
		}
		c.nontrivial(); break; }
	default: {
		c.label("reject forward-open reply"); Fwd f = genFwd(c); Bytes b = pack(f, c.u8());
		size_t cut = c.coin() ? c.below(b.size()) : b.size() - 1 - c.below(3); b.resize(cut); c.desc << "forward-open reply cut to " << cut << ": " << hex(b, 40);
		connectionManager::ForwardOpenResponse o; if (c.coin()) o.expand(pack(genFwd(c), 0));
		mustThrow(c, "truncated forward-open reply", [&] { o.expand(b); }); c.nontrivial(); break; }
	}
}
}
extern const Property pbt::theProperty = {"C06",
	"Random message-router replies (all service and status bytes, 0-255 additional status words, data to 5000 bytes) and forward-open replies (all fields boundary-biased, 0-255 application reply words) decoded into fresh and used objects and compared field by field with the generated values; the same cut at any point that removes announced content must be rejected. Non-trivial: every case (each decodes or must reject one reply).",
	run, 512, 120000, 3000000, 200, 160000};
