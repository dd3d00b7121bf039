// C05: logical paths and explicit requests.
#include "engine.h"
#include "wire.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"
using namespace pbt;
using namespace eipScanner::cip;
using wire::Path;

namespace {
Path genPath(Case& c, bool eight, bool empty = true) {
	Path p; p.n = empty && c.oneIn(12) ? 0 : 1 + int(c.below(3)); if (!p.n) c.label("path of no components");
	for (int i = 0; i < p.n; ++i) p.id[i] = (eight || c.coin()) ? c.u8() : c.u16();
	return p;
}
EPath make(const Path& p) { return !p.n ? EPath() : p.n == 1 ? EPath(p.id[0]) : p.n == 2 ? EPath(p.id[0], p.id[1]) : EPath(p.id[0], p.id[1], p.id[2]); }
Yaskawa_EPath makeY(const Path& p) { auto a = uint8_t(p.id[0]), b = uint8_t(p.id[1]), d = uint8_t(p.id[2]); return !p.n ? Yaskawa_EPath() : p.n == 1 ? Yaskawa_EPath(a) : p.n == 2 ? Yaskawa_EPath(a, b) : Yaskawa_EPath(a, b, d); }
bool fits8(const Path& p) { for (int i = 0; i < p.n; ++i) if (p.id[i] > 255) return false; return true; }

void compare(Case& c, const EPath& e, const Path& p, const char* what) {
	std::string w(what);
	expectEq(c, e.getClassId(), p.id[0], w + ": class id");
	expectEq(c, e.getObjectId(), p.id[1], w + ": instance id");
	expectEq(c, e.getAttributeId(), p.id[2], w + ": attribute id");
	Bytes s16 = e.packPaddedPath(false);
	expectEq(c, s16, wire::packPath(p, false), w + ": 16-bit form");
	expectEq(c, size_t(e.getSizeInWords(false)) * 2, s16.size(), w + ": announced size of the 16-bit form");
	expectEq(c, e.packPaddedPath(), s16, w + ": default form"); expectEq(c, int(e.getSizeInWords()), int(e.getSizeInWords(false)), w + ": default size");
	if (fits8(p)) {
		Bytes s8 = e.packPaddedPath(true);
		expectEq(c, s8, wire::packPath(p, true), w + ": 8-bit form");
		expectEq(c, size_t(e.getSizeInWords(true)) * 2, s8.size(), w + ": announced size of the 8-bit form");
	}
	EXPECT(c, e == make(p) && make(p) == e, w << ": compares unequal to the same path");
}
void compareY(Case& c, const Yaskawa_EPath& e, const Path& p, const char* what) {
	std::string w(what);
	expectEq(c, int(e.getClassId()), int(p.id[0]), w + ": class id");
	expectEq(c, int(e.getObjectId()), int(p.id[1]), w + ": instance id");
	expectEq(c, int(e.getAttributeId()), int(p.id[2]), w + ": attribute id");
	Bytes s = e.packPaddedPath();
	expectEq(c, s, wire::packPath(p, true), w + ": encoding");
	expectEq(c, size_t(e.getSizeInWords()) * 2, s.size(), w + ": announced size");
	EXPECT(c, e == makeY(p), w << ": compares unequal to the same path");
}
// encodes with each component in its own form
Bytes mixed(Case& c, const Path& p, unsigned& forms) {
	wire::W w; static const uint8_t seg[3] = {0x20, 0x24, 0x30}; forms = 0;
	for (int i = 0; i < p.n; ++i) { bool e = p.id[i] < 256 && c.coin(); forms |= e ? 1 : 2; if (e) w.u8(seg[i]).u8(p.id[i]); else w.u8(seg[i] | 1).u8(0).u16(p.id[i]); }
	return w.b;
}

void run(Case& c) {
	bool yas = c.below(3) == 2; c.label(yas ? "Yaskawa" : "standard");
	switch (c.below(5)) {
	case 0: { // encode
		Path p = genPath(c, yas); c.desc << (yas ? "Yaskawa " : "") << "path " << wire::show(p); c.label("encode");
		if (yas) compareY(c, makeY(p), p, "constructed path"); else compare(c, make(p), p, "constructed path");
		c.nontrivial(); break; }
	case 1: { // decode every form, reusing the object
		c.label("decode"); EPath e; Yaskawa_EPath y; unsigned n = 1 + unsigned(c.below(3));
		if (c.coin()) { Path q = genPath(c, true); e = make(q); y = makeY(q); }
		for (unsigned i = 0; i < n; ++i) {
			Path p = genPath(c, yas); unsigned forms; Bytes b = mixed(c, p, forms);
			c.desc << "decode " << hex(b) << " as " << wire::show(p) << "; "; c.label(forms == 3 ? "mixed form" : forms == 1 ? "8-bit form" : "16-bit form");
			for (int k = 0; k < p.n; ++k) if (!p.id[k]) { c.label("component 0"); break; }
			if (yas) { mustPass(c, "well-formed path", [&] { y.expandPaddedPath(b); }); compareY(c, y, p, "decoded path"); }
			else { mustPass(c, "well-formed path", [&] { e.expandPaddedPath(b); }); compare(c, e, p, "decoded path"); }
		}
		if (yas && c.oneIn(4)) { // ids the Yaskawa path has no room for: refused, or kept in full, never another id
			Path p = genPath(c, false); unsigned forms; Bytes b = mixed(c, p, forms); Yaskawa_EPath z; c.desc << "decode " << hex(b) << " as " << wire::show(p); if (!fits8(p)) c.label("id beyond 8 bits in a Yaskawa path");
			if (guarded(c, "Yaskawa path", [&] { z.expandPaddedPath(b); }) == Outcome::OK) { expectEq(c, int(z.getClassId()), int(p.id[0]), "decoded class id"); expectEq(c, int(z.getObjectId()), int(p.id[1]), "decoded instance id"); expectEq(c, int(z.getAttributeId()), int(p.id[2]), "decoded attribute id"); }
			else EXPECT(c, !fits8(p), "a well-formed Yaskawa path was refused"); }
		c.nontrivial(); break; }
	case 2: { // rejection
		c.label("reject"); Path p = genPath(c, yas, false); unsigned f; Bytes b = mixed(c, p, f); bool cut = c.coin();
		if (cut) { // strictly inside a segment
			std::vector<size_t> ends{0}; for (size_t i = 0; i < b.size();) { i += (b[i] & 1) ? 4 : 2; ends.push_back(i); }
			size_t k = c.below(ends.size() - 1); size_t at = ends[k] + 1 + c.below(ends[k + 1] - ends[k] - 1); b.resize(at);
		} else {
			std::vector<size_t> starts; for (size_t i = 0; i < b.size(); i += (b[i] & 1) ? 4 : 2) starts.push_back(i); starts.push_back(b.size());
			uint8_t t; do { t = uint8_t(1 + c.below(255)); } while (((t & 0xfe) == 0x20 || (t & 0xfe) == 0x24 || (t & 0xfe) == 0x30) && !c.src.exhausted());
			if ((t & 0xfe) == 0x20 || (t & 0xfe) == 0x24 || (t & 0xfe) == 0x30) throw Discard{};
			size_t at = c.pick(starts);
			Bytes x = {t, c.u8()}; if (c.coin()) x.resize(4);
			b.insert(b.begin() + long(at), x.begin(), x.end());
		}
		c.desc << (cut ? "cut " : "unknown segment ") << hex(b);
		if (yas) { Yaskawa_EPath y; mustThrow(c, "malformed path", [&] { y.expandPaddedPath(b); }); }
		else { EPath e; mustThrow(c, "malformed path", [&] { e.expandPaddedPath(b); }); }
		c.nontrivial(); break; }
	case 3: { // requests
		c.label("request"); bool eight = yas || c.coin(); Path p = genPath(c, eight); uint8_t s = c.u8(); Bytes d = c.bytesUpTo(4000, {0, 1, 255, 256});
		c.desc << "request 0x" << std::hex << int(s) << std::dec << " " << wire::show(p) << (eight ? " 8-bit" : " 16-bit") << " data[" << d.size() << "]";
		Bytes want = wire::packRequest(s, p, eight, d);
		if (yas) { Yaskawa_MessageRouterRequest q(s, makeY(p), d); expectEq(c, q.pack(), want, "encoded Yaskawa request"); expectEq(c, q.pack(), want, "second encoding"); }
		else { MessageRouterRequest q(s, make(p), d, eight); expectEq(c, q.pack(), want, "encoded request"); expectEq(c, q.pack(), want, "second encoding");
			if (!eight) { MessageRouterRequest r(s, make(p), d); expectEq(c, r.pack(), want, "encoded request with default form"); } }
		c.nontrivial(); break; }
	default: { // equality
		c.label("equality"); Path p = genPath(c, true), q = p;
		if (q.n && c.coin()) { int k = int(c.below(uint64_t(q.n))); q.id[k] ^= uint16_t(1u << c.below(8)); } else if (c.coin()) { if (q.n < 3 && c.coin()) { q.n++; q.id[q.n - 1] = uint16_t(c.coin() ? 0 : c.u8()); } else if (q.n) { q.id[q.n - 1] = 0; q.n--; } }
		bool eq = p == q; c.desc << wire::show(p) << " vs " << wire::show(q);
		EXPECT(c, (make(p) == make(q)) == eq && (make(q) == make(p)) == eq, "path equality wrong");
		EXPECT(c, (makeY(p) == makeY(q)) == eq && (makeY(q) == makeY(p)) == eq, "Yaskawa path equality wrong");
		c.nontrivial(); break; }
	}
}
}
extern const Property pbt::theProperty = {"C05",
	"Random paths of 0-3 components (ids boundary-biased incl. 0, 255, 256, 65535) encoded in both forms, decoded from any per-component mix of forms into fresh and used objects, cut strictly inside a segment, given an unknown segment at a segment boundary, compared pairwise; random requests with data to 4000 bytes; standard and Yaskawa variants against an independent codec. Non-trivial: every case that is not discarded (each has at least one component to encode, restore or reject).",
	run, 512, 200000, 4000000, 100, 160000};
