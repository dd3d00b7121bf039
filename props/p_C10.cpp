// C10: network connection parameter builder against an independent bit layout.
#include "engine.h"
#include "wire.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
using namespace pbt;
using B = eipScanner::cip::connectionManager::NetworkConnectionParametersBuilder;

namespace {
struct Field { unsigned shift, width; };
const Field small[5] = {{15, 1}, {13, 2}, {10, 2}, {9, 1}, {0, 9}};
const Field large[5] = {{31, 1}, {29, 2}, {26, 2}, {25, 1}, {0, 16}};
const char* names[5] = {"owner", "type", "priority", "variable", "size"};
uint32_t mask(const Field& f) { return ((f.width == 32 ? 0 : (1u << f.width)) - 1) << f.shift; }

void check(Case& c, B& b, uint32_t v, const Field* L, const char* what) {
	expectEq(c, uint32_t(b.build()), v, std::string(what) + ": built value");
	uint32_t got[5] = {uint32_t(b.getRedundantOwner()), uint32_t(b.getConnectionType()), uint32_t(b.getPriority()), uint32_t(b.getType()), uint32_t(b.getConnectionSize())};
	for (int i = 0; i < 5; ++i) expectEq(c, got[i], (v & mask(L[i])) >> L[i].shift, std::string(what) + ": getter of " + names[i]);
}
B& apply(B& b, int f, uint32_t x) {
	switch (f) {
	case 0: return const_cast<B&>(static_cast<const B&>(b.setRedundantOwner(B::RedundantOwner(x))));
	case 1: return b.setConnectionType(B::ConnectionType(x));
	case 2: return b.setPriority(B::Priority(x));
	case 3: return b.setType(B::Type(x));
	default: return b.setConnectionSize(uint16_t(x));
	}
}
uint32_t val(Case& c, int f, bool lfo) { switch (f) { case 0: case 3: return uint32_t(c.below(2)); case 1: case 2: return uint32_t(c.below(4)); default: return lfo ? c.u16() : c.u16() & 0x1ff; } }

void run(Case& c) {
	bool lfo = c.coin(); const Field* L = lfo ? large : small; c.label(lfo ? "large" : "small");
	switch (c.below(4)) {
	case 0: { // all fields, any order, chained in one expression
		uint32_t x[5], want = 0; for (int i = 0; i < 5; ++i) { x[i] = val(c, i, lfo); want |= x[i] << L[i].shift; }
		c.desc << "chained, owner " << x[0] << " type " << x[1] << " prio " << x[2] << " var " << x[3] << " size " << x[4]; c.label("chained");
		B b(0, lfo); uint32_t got = 0;
		auto O = B::RedundantOwner(x[0]); auto T = B::ConnectionType(x[1]); auto P = B::Priority(x[2]); auto V = B::Type(x[3]); auto S = uint16_t(x[4]);
		switch (c.below(4)) {
		case 0: got = b.setRedundantOwner(O).setConnectionType(T).setPriority(P).setType(V).setConnectionSize(S).build(); break;
		case 1: got = b.setConnectionSize(S).setType(V).setPriority(P).setConnectionType(T).setRedundantOwner(O).build(); break;
		case 2: got = b.setPriority(P).setRedundantOwner(O).setConnectionSize(S).setConnectionType(T).setType(V).build(); break;
		default: got = b.setType(V).setConnectionType(T).setRedundantOwner(O).setPriority(P).setConnectionSize(S).build(); break;
		}
		expectEq(c, got, want, "chained value");
		check(c, b, want, L, "builder after a chain of setters");
		c.nontrivial(); break; }
	case 1: case 2: { // any sequence on any initial value
		uint32_t v = c.coin() ? 0 : lfo ? c.u32() : c.coin() ? c.u16() : c.u32(); B b(v, lfo); c.desc << (lfo ? "large " : "") << "initial 0x" << std::hex << v << std::dec; check(c, b, v, L, "initial value");
		unsigned n = 1 + unsigned(c.below(10)); unsigned seen = 0; bool again = false;
		for (unsigned i = 0; i < n; ++i) {
			int f = int(c.below(5)); uint32_t x = val(c, f, lfo); c.desc << " " << names[f] << "=" << x;
			apply(b, f, x);
			if (seen >> f & 1) again = true; seen |= 1u << f;
			v = (v & ~mask(L[f])) | (x << L[f].shift);
			check(c, b, v, L, "after a setter");
		}
		if (again) c.label("field set again");
		B copy(b); check(c, copy, v, L, "copy");
		c.nontrivial(); break; }
	default: { // oversized size must not spill into the other fields of the small form
		B b(0, false); uint32_t x[4], v = 0; for (int i = 0; i < 4; ++i) { x[i] = val(c, i, false); v |= x[i] << small[i].shift; apply(b, i, x[i]); }
		uint32_t s = c.u16(); c.desc << "size " << s << " in the small form"; c.label("oversized size"); Outcome o = guarded(c, "setting the size", [&] { b.setConnectionSize(uint16_t(s)); }); // C27 says which it must be
		if (s < 512) EXPECT(c, o == Outcome::OK, "a size in range was refused");
		expectEq(c, uint32_t(b.build()) & ~0x1ffu, v, "other fields after an oversized size"); if (s < 512) check(c, b, v | s, small, "in-range size");
		if (s >= 512) c.nontrivial(); break; }
	}
}
}
extern const Property pbt::theProperty = {"C10",
	"Random field values in both forms: chained setter expressions in several orders, random setter sequences with repetitions on random initial values (every field re-read and the whole word compared after each call), and sizes beyond the 9-bit field; oracle is an independent table of bit positions. Non-trivial: every case with at least one setter applied (oversized-size cases only when the size exceeds 511).",
	run, 1024, 400000, 8000000, 0, 0};
