// C01: Buffer codec against an independent wire model and position model.
#include "engine.h"
#include "wire.h"
#include "utils/Buffer.h"
#include <deque>
#include <memory>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace pbt;
using eipScanner::utils::Buffer;
using namespace eipScanner;

namespace {
enum Kind { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, V8, V16, SHORTSTR, LONGSTR, REV, EP, NKINDS };
const char* kindName[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bytes", "words", "shortstr", "longstr", "rev", "endpoint"};

// A value in wire form, with its kind; for V8/V16 the element count is needed to read it back.
struct Val { Kind k; Bytes w; size_t n = 0; };

uint64_t le(const Bytes& b) { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 8; ++i) v |= uint64_t(b[i]) << (8 * i); return v; }

size_t minSize(Kind k, size_t n) {
	switch (k) {
	case U8: case I8: case SHORTSTR: return 1;
	case U16: case I16: case REV: case LONGSTR: return 2;
	case U32: case I32: case F32: return 4;
	case U64: case I64: case F64: return 8;
	case V8: return n;
	case V16: return 2 * n;
	case EP: return 16;
	default: return 0;
	}
}

Val genVal(Case& c) {
	Val v; v.k = Kind(c.below(NKINDS)); wire::W w;
	switch (v.k) {
	case U8: case I8: w.u8(c.u8()); break;
	case U16: case I16: w.u16(c.u16()); break;
	case U32: case I32: case F32: w.u32(c.u32()); break;
	case U64: case I64: case F64: w.u64(c.u64()); break;
	case V8: { v.n = c.size(70000, {255, 256, 65535, 65536}); w.raw(c.bytes(v.n)); break; }
	case V16: { v.n = c.size(300, {127, 128, 255, 256}); w.raw(c.bytes(v.n * 2)); break; }
	case SHORTSTR: { v.n = c.size(255, {127, 128, 254, 255}); w.u8(v.n).raw(c.bytes(v.n)); break; }
	case LONGSTR: { v.n = c.size(65535, {255, 256, 257, 32767, 32768, 65534, 65535}); w.u16(v.n).raw(c.bytes(v.n)); break; }
	case REV: w.u8(c.u8()).u8(c.u8()); break;
	case EP: { uint16_t fam = c.oneIn(4) ? c.u16() : 2; uint16_t port = c.u16(); uint32_t ip = c.u32(); w.raw(wire::sockaddr(ip, port, fam)); break; }
	default: break;
	}
	v.w = w.b; return v;
}

template <class T> T from(uint64_t raw) { T t; if constexpr (sizeof(T) == 4) { uint32_t r = uint32_t(raw); memcpy(&t, &r, 4); } else memcpy(&t, &raw, sizeof t); return t; }

sockets::EndPoint toEp(const Bytes& w) {
	sockaddr_in a{}; a.sin_family = uint16_t(w[0] << 8 | w[1]); memcpy(&a.sin_port, &w[2], 2); memcpy(&a.sin_addr, &w[4], 4);
	return sockets::EndPoint(a);
}

void write(Case& c, Buffer& b, const Val& v, bool fromString) {
	uint64_t x = le(v.w);
	Buffer* r = nullptr;
	switch (v.k) {
	case U8: r = &(b << uint8_t(x)); break;
	case I8: r = &(b << int8_t(x)); break;
	case U16: r = &(b << uint16_t(x)); break;
	case I16: r = &(b << int16_t(x)); break;
	case U32: r = &(b << uint32_t(x)); break;
	case I32: r = &(b << int32_t(x)); break;
	case U64: r = &(b << uint64_t(x)); break;
	case I64: r = &(b << int64_t(x)); break;
	case F32: r = &(b << from<float>(x)); break;
	case F64: r = &(b << from<double>(x)); break;
	case V8: r = &(b << v.w); break;
	case V16: { std::vector<uint16_t> t(v.n); for (size_t i = 0; i < v.n; ++i) t[i] = uint16_t(v.w[2 * i] | v.w[2 * i + 1] << 8); r = &(b << t); break; }
	case SHORTSTR: { Bytes d(v.w.begin() + 1, v.w.end());
		if (fromString) r = &(b << cip::CipShortString(std::string(d.begin(), d.end()))); else r = &(b << cip::CipShortString(d)); break; }
	case LONGSTR: { Bytes d(v.w.begin() + 2, v.w.end());
		if (fromString) r = &(b << cip::CipString(std::string(d.begin(), d.end()))); else r = &(b << cip::CipString(d)); break; }
	case REV: r = &(b << cip::CipRevision(v.w[0], v.w[1])); break;
	case EP: r = &(b << toEp(v.w)); break;
	default: break;
	}
	EXPECT(c, r == &b, "operator<< does not return the buffer");
}

// Reads one value of the kind; the result is re-expressed in wire form.
template <class T> Bytes rdInt(Buffer& b, bool prefill) { T t = prefill ? T(-3) : T(0); b >> t; Bytes w; for (size_t i = 0; i < sizeof(T); ++i) w.push_back(uint8_t(uint64_t(t) >> (8 * i))); return w; }
Bytes read(Case& c, Buffer& b, Kind k, size_t n, bool prefill) {
	switch (k) {
	case U8: return rdInt<uint8_t>(b, prefill);
	case I8: return rdInt<int8_t>(b, prefill);
	case U16: return rdInt<uint16_t>(b, prefill);
	case I16: return rdInt<int16_t>(b, prefill);
	case U32: return rdInt<uint32_t>(b, prefill);
	case I32: return rdInt<int32_t>(b, prefill);
	case U64: return rdInt<uint64_t>(b, prefill);
	case I64: return rdInt<int64_t>(b, prefill);
	case F32: { float f = prefill ? 1.5f : 0.f; b >> f; Bytes w(4); memcpy(w.data(), &f, 4); return w; }
	case F64: { double f = prefill ? 1.5 : 0.; b >> f; Bytes w(8); memcpy(w.data(), &f, 8); return w; }
	case V8: { Bytes t(n, prefill ? 0xAA : 0); b >> t; EXPECT(c, t.size() == n, "reading a byte array changed its length"); return t; }
	case V16: { std::vector<uint16_t> t(n, prefill ? 0xAAAA : 0); b >> t; EXPECT(c, t.size() == n, "reading a word array changed its length"); wire::W w; for (auto x : t) w.u16(x); return w.b; }
	case SHORTSTR: { cip::CipShortString s(std::string(prefill ? "old" : "")); b >> s;
		EXPECT(c, s.getLength() == uint8_t(s.getData().size()) && s.toStdString() == std::string(s.getData().begin(), s.getData().end()), "inconsistent short string");
		return wire::W().u8(s.getLength()).raw(s.getData()).b; }
	case LONGSTR: { cip::CipString s(std::string(prefill ? "old" : "")); b >> s;
		EXPECT(c, s.getLength() == uint16_t(s.getData().size()) && s.toStdString() == std::string(s.getData().begin(), s.getData().end()), "inconsistent long string");
		return wire::W().u16(s.getLength()).raw(s.getData()).b; }
	case REV: { cip::CipRevision r(prefill, prefill); b >> r; return wire::W().u8(r.getMajorRevision()).u8(r.getMinorRevision()).b; }
	case EP: { sockets::EndPoint e("1.2.3.4", prefill); b >> e;
		sockaddr_in a = e.getAddr(); wire::W w; w.u16be(a.sin_family);
		uint16_t p; memcpy(&p, &a.sin_port, 2); EXPECT(c, ntohs(p) == uint16_t(e.getPort()), "endpoint port and socket address disagree");
		char txt[32]; inet_ntop(AF_INET, &a.sin_addr, txt, sizeof txt); expectEq(c, e.getHost(), std::string(txt), "endpoint host text");
		w.u16be(ntohs(p)).u32be(ntohl(a.sin_addr.s_addr)).zeros(8); return w.b; }
	default: return {};
	}
}

struct Model {
	Bytes data; size_t pos = 0; bool bad = false;
	void check(Case& c, const Buffer& b) {
		expectEq(c, b.size(), data.size(), "buffer size");
		expectEq(c, b.isValid(), !bad, "buffer validity");
		if (!bad) { expectEq(c, b.pos(), pos, "read position"); expectEq(c, b.empty(), pos == data.size(), "emptiness"); }
	}
};
// what a read of kind k consumes at the model's position; false: more than remains
bool expected(const Model& m, Kind k, size_t n, Bytes& out) {
	size_t left = m.data.size() - m.pos, need = minSize(k, n);
	if (need > left) return false;
	const uint8_t* p = m.data.data() + m.pos;
	if (k == SHORTSTR) need = 1 + size_t(p[0]);
	if (k == LONGSTR) need = 2 + size_t(p[0] | p[1] << 8);
	if (need > left) return false;
	out.assign(p, p + need);
	return true;
}

void doRead(Case& c, Buffer& b, Model& m, Kind k, size_t n) {
	bool prefill = c.coin();
	c.desc << " >>" << kindName[k]; if (n) c.desc << "[" << n << "]";
	Bytes want;
	bool ok = !m.bad && expected(m, k, n, want);
	Bytes got = read(c, b, k, n, prefill);
	if (ok) {
		m.pos += want.size();
		if (k == EP) for (size_t i = 8; i < 16; ++i) want[i] = 0;      // padding carries nothing
		expectEq(c, got, want, std::string("value read back as ") + kindName[k]);
	} else {
		// A read of zero bytes asks for no more than remain, whatever the position.
		bool zero = (k == V8 || k == V16) && n == 0;
		if (!zero) { m.bad = true; c.label("over-read"); }
	}
	m.check(c, b);
}

void run(Case& c) {
	bool raw = c.below(3) == 2;
	Model m; std::unique_ptr<Buffer> pb; std::deque<Val> queue;
	if (raw) { m.data = c.bytesUpTo(300, {0, 1, 2, 15, 16, 17, 255, 256}); pb = std::make_unique<Buffer>(m.data); c.desc << "Buffer(" << hex(m.data, 40) << ")"; c.label("raw input"); }
	else if (c.coin()) { size_t cap = c.size(4096); pb = std::make_unique<Buffer>(cap); c.desc << "Buffer(capacity " << cap << ")"; }
	else { pb = std::make_unique<Buffer>(); c.desc << "Buffer()"; }
	m.check(c, *pb);
	size_t steps = c.size(24); unsigned kinds = 0, overs = 0, readBack = 0;
	for (size_t i = 0; i < steps; ++i) {
		Buffer& b = *pb;
		unsigned op = unsigned(c.below(8));
		if (!raw && op < 4) {
			Val v = genVal(c);
			c.desc << " <<" << kindName[v.k] << "(" << hex(v.w, 12) << ")";
			write(c, b, v, c.coin());
			if (m.bad) { m.data.insert(m.data.end(), v.w.begin(), v.w.end()); m.check(c, b); continue; }
			m.data.insert(m.data.end(), v.w.begin(), v.w.end());
			queue.push_back(v); kinds |= 1u << v.k;
			m.check(c, b);
			expectEq(c, b.data(), m.data, "encoded bytes");
		} else if (!raw && op < 7) {
			if (queue.empty()) continue;
			Val v = queue.front(); queue.pop_front();
			doRead(c, b, m, v.k, v.n); ++readBack;
		} else if (op == 7 && !raw && c.coin()) {
			// A copy is independent of the original.
			Buffer copy(b); Model mc = m; copy << uint8_t(7); mc.data.push_back(7); mc.check(c, copy); m.check(c, b);
		} else {
			Kind k = Kind(c.below(NKINDS)); size_t left = m.bad ? 4 : m.data.size() - m.pos;
			size_t n = (k == V8) ? c.size(left + 3, {left, left + 1}) : (k == V16) ? c.size(left / 2 + 2, {left / 2, left / 2 + 1}) : 0;
			queue.clear();                                   // values no longer line up
			doRead(c, b, m, k, n); if (m.bad) ++overs;
			if (c.oneIn(16)) { Bytes d(c.size(1 << 20)); uint64_t want = d.size(); bool bad = m.bad || want > m.data.size() - m.pos;
				b >> d; if (bad && want) m.bad = true; else if (!bad) m.pos += want; m.check(c, b); }
		}
	}
	while (!queue.empty() && !m.bad) { Val v = queue.front(); queue.pop_front(); doRead(c, *pb, m, v.k, v.n); ++readBack; }
	expectEq(c, pb->data(), m.data, "encoded bytes at the end");
	for (int k = 0; k < NKINDS; ++k) if (kinds >> k & 1) c.label((std::string("wrote ") + kindName[k]).c_str());
	if (readBack >= 2 || (raw && steps >= 2) || overs) c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C01",
	"Random sequences of up to 24 writes (16 primitive kinds, boundary-biased values, arrays to 70000 bytes), reads of the oldest unread value, reads of arbitrary kinds and over-reads on Buffer objects made empty, with capacity, or from raw bytes; after each step bytes, size, position, emptiness and validity are compared with an independent wire model under AddressSanitizer. Non-trivial: at least two values were read back, or two reads of raw bytes, or an over-read happened.",
	run, 256, 120000, 3000000, 256, 240000};
