// C02: every decoder on arbitrary bytes: total, pure, memory-safe, never inventing content.
#include "engine.h"
#include "wire.h"
#include "eip/EncapsPacket.h"
#include "eip/CommonPacket.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include <memory>
using namespace pbt;
using namespace eipScanner;

namespace {
enum Dec { ENCAPS, LENGTH, COMMON, REPLY, FWDOPEN, PATH, YPATH, NDEC };
const char* decName[] = {"EncapsPacket", "getLengthFromHeader", "CommonPacket", "MessageRouterResponse", "ForwardOpenResponse", "EPath", "Yaskawa_EPath"};

struct Objects {
	eip::EncapsPacket enc; eip::CommonPacket com; cip::MessageRouterResponse rep;
	cip::connectionManager::ForwardOpenResponse fwd; cip::EPath path; cip::Yaskawa_EPath ypath;
};

// decodes and writes down everything the decoder reports
std::string show(Objects& o, Dec d, const Bytes& in) {
	std::ostringstream s;
	switch (d) {
	case ENCAPS: o.enc.expand(in);
		s << int(o.enc.getCommand()) << " " << o.enc.getLength() << " " << o.enc.getSessionHandle() << " " << uint32_t(o.enc.getStatusCode()) << " " << hex(o.enc.getData(), 1 << 20) << " | " << hex(o.enc.pack(), 1 << 20); break;
	case LENGTH: s << eip::EncapsPacket::getLengthFromHeader(in); break;
	case COMMON: o.com.expand(in); for (auto& i : o.com.getItems()) s << "{" << int(i.getTypeId()) << " " << i.getLength() << " " << hex(i.getData(), 1 << 20) << "}"; break;
	case REPLY: o.rep.expand(in);
		s << int(o.rep.getServiceCode()) << " " << int(o.rep.getGeneralStatusCode()) << " ["; for (auto x : o.rep.getAdditionalStatus()) s << x << ","; s << "] " << hex(o.rep.getData(), 1 << 20); break;
	case FWDOPEN: o.fwd.expand(in);
		s << o.fwd.getO2TNetworkConnectionId() << " " << o.fwd.getT2ONetworkConnectionId() << " " << o.fwd.getConnectionSerialNumber() << " " << o.fwd.getOriginatorVendorId() << " " << o.fwd.getOriginatorSerialNumber()
		  << " " << o.fwd.getO2TApi() << " " << o.fwd.getT2OApi() << " " << int(o.fwd.getApplicationReplaySize()) << " " << hex(o.fwd.getApplicationReplay(), 1 << 20); break;
	case PATH: o.path.expandPaddedPath(in);
		s << o.path.getClassId() << " " << o.path.getObjectId() << " " << o.path.getAttributeId() << " size " << int(o.path.getSizeInWords(true)) << " " << int(o.path.getSizeInWords(false)) << " " << o.path.toString(); break;
	case YPATH: o.ypath.expandPaddedPath(in);
		s << int(o.ypath.getClassId()) << " " << int(o.ypath.getObjectId()) << " " << int(o.ypath.getAttributeId()) << " size " << int(o.ypath.getSizeInWords()) << " " << o.ypath.toString(); break;
	default: break;
	}
	return s.str();
}

enum Verdict { ACCEPT, REJECT, EITHER };   // EITHER: unspecified whether it is accepted; if text is set, acceptance must report it
Verdict reference(Dec d, const Bytes& in, std::string& text) {
	std::ostringstream s; wire::R r(in);
	switch (d) {
	case ENCAPS: { wire::Encaps e; if (!wire::parse(in, e)) return REJECT;
		s << e.cmd << " " << e.len << " " << e.handle << " " << e.status << " " << hex(e.data, 1 << 20) << " | " << hex(in, 1 << 20); text = s.str(); return ACCEPT; }
	case LENGTH: { if (in.size() < 4) return REJECT; r.u16(); s << r.u16(); text = s.str(); return ACCEPT; }
	case COMMON: {
		if (in.size() < 2) return REJECT;
		unsigned n = r.u16(), i = 0;
		for (; i < n && r.left(); ++i) { int t = r.u16(); unsigned l = r.u16(); Bytes dt = r.take(l); if (!r.ok) return REJECT; s << "{" << t << " " << l << " " << hex(dt, 1 << 20) << "}"; }
		text = s.str(); return (i == n && !r.left()) ? ACCEPT : EITHER; }     // fewer items than announced / bytes left over
	case REPLY: {
		if (in.size() < 4) return REJECT;
		int sc = r.u8(); r.u8(); int st = r.u8(); unsigned n = r.u8(); if (r.left() < 2 * n) return REJECT;
		s << sc << " " << st << " ["; for (unsigned i = 0; i < n; ++i) s << r.u16() << ","; s << "] " << hex(r.rest(), 1 << 20); text = s.str(); return ACCEPT; }
	case FWDOPEN: {
		if (in.size() < 26 || in.size() < 26u + 2u * in[24]) return REJECT;
		uint32_t a = r.u32(), b = r.u32(), c1 = r.u16(), v = r.u16(), o = r.u32(), x = r.u32(), y = r.u32(); unsigned n = r.u8(); r.u8();
		s << a << " " << b << " " << c1 << " " << v << " " << o << " " << x << " " << y << " " << n << " " << hex(r.take(2 * n), 1 << 20); text = s.str();
		return r.left() ? EITHER : ACCEPT; }
	case PATH: case YPATH: {
		int id[3] = {0, 0, 0}, n = 0; bool regular = !in.empty(), big = false;
		while (r.left()) {
			uint8_t t = r.u8(); int k = (t & 0xfe) == 0x20 ? 0 : (t & 0xfe) == 0x24 ? 1 : (t & 0xfe) == 0x30 ? 2 : -1;
			if (k < 0) return REJECT;
			if (k != n) regular = false; n = k + 1;
			if (t & 1) { if (r.u8()) regular = false; id[k] = r.u16(); } else id[k] = r.u8();
			if (!r.ok) return REJECT;
			if (id[k] > 255) big = true;
		}
		if (!regular || (d == YPATH && big)) return EITHER;
		s << id[0] << " " << id[1] << " " << id[2] << " size " << n;
		if (d == PATH) s << " " << 2 * n;
		s << " [classId=" << id[0]; if (n > 1) s << " objectId=" << id[1]; if (n > 2) s << " attributeId=" << id[2]; s << "]";
		text = s.str(); return ACCEPT; }
	default: return EITHER;
	}
}

Bytes valid(Case& c, Dec d) {
	wire::W w;
	switch (d) {
	case ENCAPS: case LENGTH: { wire::Encaps e; e.cmd = c.u16(); e.handle = c.u32(); e.status = c.u32(); e.ctx = c.bytes(8); e.options = c.u32(); e.data = c.bytesUpTo(65535, {0, 255, 256, 65535}); e.len = uint16_t(e.data.size()); return wire::pack(e); }
	case COMMON: { std::vector<wire::Item> v(c.size(12)); for (auto& i : v) { i.type = c.u16(); i.data = c.bytesUpTo(700, {0, 255, 256}); } return wire::packItems(v); }
	case REPLY: { wire::Reply r; r.service = c.u8(); r.status = c.u8(); r.ext.resize(c.size(255, {127, 128, 255})); for (auto& e : r.ext) e = uint16_t(c.below(65536)); r.data = c.bytesUpTo(600); return wire::packReply(r); }
	case FWDOPEN: { w.raw(c.bytes(24)); size_t n = c.size(255, {127, 128, 255}); w.u8(n).u8(c.u8()).raw(c.bytes(2 * n)); return w.b; }
	default: { int n = 1 + int(c.below(3)); static const uint8_t seg[3] = {0x20, 0x24, 0x30};
		for (int i = 0; i < n; ++i) { if (c.coin()) w.u8(seg[i]).u8(c.u8()); else w.u8(seg[i] | 1).u8(0).u16(c.coin() ? c.u8() : c.u16()); } return w.b; }
	}
}
Bytes input(Case& c, Dec d, const char*& how) {
	unsigned k = unsigned(c.below(6));
	if (k == 0) { how = "valid"; return valid(c, d); }
	if (k == 1) { how = "random"; Bytes b = c.bytesUpTo(200, {0, 1, 2, 3, 4, 23, 24, 25, 26, 27}); 
		if (d >= PATH) for (auto& x : b) if (c.coin()) x = c.pick({0x20, 0x21, 0x24, 0x25, 0x30, 0x31, 0}); return b; }
	Bytes b = valid(c, d);
	if (k == 2) { how = "truncated"; b.resize(c.coin() ? c.below(b.size() + 1) : b.size() - std::min<size_t>(b.size(), c.below(4))); return b; }
	if (k == 3) { how = "extended"; Bytes x = c.bytes(1 + c.below(6)); b.insert(b.end(), x.begin(), x.end()); return b; }
	how = "mutated";
	unsigned m = 1 + unsigned(c.below(3));
	for (unsigned i = 0; i < m && !b.empty(); ++i) {
		size_t at = c.coin() ? c.below(std::min<size_t>(b.size(), 30)) : c.below(b.size());
		switch (c.below(5)) {
		case 0: b[at] = c.u8(); break;
		case 1: b[at] ^= uint8_t(1u << c.below(8)); break;
		case 2: b[at] = uint8_t(b[at] + (c.coin() ? 1 : -1)); break;
		case 3: b.erase(b.begin() + long(at)); break;
		case 4: b.insert(b.begin() + long(at), c.u8()); break;
		}
	}
	return b;
}

void run(Case& c) {
	Dec d = Dec(c.below(NDEC));
	const char* how; Bytes in = input(c, d, how);
	c.desc << decName[d] << " on " << how << " input [" << in.size() << "] " << hex(in, 80);
	std::string want; Verdict v = reference(d, in, want);
	c.label((std::string(decName[d]) + (v == ACCEPT ? " must accept" : v == REJECT ? " must reject" : " either")).c_str());

	Objects fresh; std::string got, why;
	Outcome o = guarded(c, decName[d], [&] { Bytes copy(in); got = show(fresh, d, copy); }, &why);
	if (v == ACCEPT && o != Outcome::OK) c.fail(std::string(decName[d]) + ": well-formed input rejected: " + why);
	if (v == REJECT && o == Outcome::OK) c.fail(std::string(decName[d]) + ": malformed input accepted, reporting " + got.substr(0, 300));
	if (o == Outcome::OK && !want.empty() && got != want) c.fail(std::string(decName[d]) + ": reported <" + got.substr(0, 400) + "> but the input says <" + want.substr(0, 400) + ">");

	// history: decode other inputs first
	Objects used; unsigned n = 1 + unsigned(c.below(3));
	for (unsigned i = 0; i < n; ++i) {
		const char* h; Bytes other = input(c, d, h);
		Outcome p = guarded(c, decName[d], [&] { show(used, d, other); });
		c.label(p == Outcome::OK ? "earlier decode succeeded" : "earlier decode failed");
	}
	std::string again;
	Outcome o2 = guarded(c, decName[d], [&] { again = show(used, d, in); });
	if (o2 != o) c.fail(std::string(decName[d]) + ": a used decoder " + (o2 == Outcome::OK ? "accepts" : "rejects") + " what a fresh one does not");
	if (o == Outcome::OK && again != got) c.fail(std::string(decName[d]) + ": a used decoder reports <" + again.substr(0, 300) + ">, a fresh one <" + got.substr(0, 300) + ">");
	if (in.size() >= 1 && (v != EITHER || in.size() > 2)) c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C02",
	"For one of 7 decoders: valid encodings, truncations at every kind of point, extensions, byte/bit mutations and random bytes; verdict (must accept / must reject / either) and reported content come from an independent parser, run under AddressSanitizer and UBSan, and the same input is decoded again by an object that decoded 1-3 other inputs before. Non-trivial: the input is non-empty and its verdict is determined by the format.",
	run, 512, 400000, 8000000, 300, 400000};
