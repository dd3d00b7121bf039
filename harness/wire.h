// Independent encoders/decoders of the wire formats, written from the specification, not from /repo.
#pragma once
#include "engine.h"

namespace wire {
using pbt::Bytes;

struct W {
	Bytes b;
	W& u8(uint64_t v) { b.push_back(uint8_t(v)); return *this; }
	W& u16(uint64_t v) { return u8(v & 255).u8((v >> 8) & 255); }
	W& u32(uint64_t v) { return u16(v & 0xffff).u16((v >> 16) & 0xffff); }
	W& u64(uint64_t v) { return u32(v & 0xffffffffu).u32(v >> 32); }
	W& u16be(uint64_t v) { return u8((v >> 8) & 255).u8(v & 255); }
	W& u32be(uint64_t v) { return u16be((v >> 16) & 0xffff).u16be(v & 0xffff); }
	W& raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
	W& str(const std::string& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
	W& shortStr(const std::string& x) { return u8(x.size()).str(x); }
	W& zeros(size_t n) { b.insert(b.end(), n, 0); return *this; }
};
struct R {
	const Bytes& b; size_t p = 0; bool ok = true;
	explicit R(const Bytes& x) : b(x) {}
	uint64_t n(unsigned k) { if (b.size() - p < k) { ok = false; p = b.size(); return 0; } uint64_t v = 0; for (unsigned i = 0; i < k; ++i) v |= uint64_t(b[p++]) << (8 * i); return v; }
	uint8_t u8() { return uint8_t(n(1)); }
	uint16_t u16() { return uint16_t(n(2)); }
	uint32_t u32() { return uint32_t(n(4)); }
	uint64_t u64() { return n(8); }
	uint16_t u16be() { uint8_t h = u8(), l = u8(); return uint16_t(h << 8 | l); }
	uint32_t u32be() { uint32_t h = u16be(); return h << 16 | u16be(); }
	Bytes take(size_t k) { if (b.size() - p < k) { ok = false; k = b.size() - p; } Bytes r(b.begin() + long(p), b.begin() + long(p + k)); p += k; return r; }
	Bytes rest() { return take(b.size() - p); }
	size_t left() const { return b.size() - p; }
};

struct Encaps { uint16_t cmd = 0, len = 0; uint32_t handle = 0, status = 0; Bytes ctx = Bytes(8); uint32_t options = 0; Bytes data; };
inline Bytes pack(const Encaps& e) { return W().u16(e.cmd).u16(e.len).u32(e.handle).u32(e.status).raw(e.ctx).u32(e.options).raw(e.data).b; }
inline Bytes encaps(uint16_t cmd, uint32_t handle, uint32_t status, const Bytes& data) { Encaps e; e.cmd = cmd; e.len = uint16_t(data.size()); e.handle = handle; e.status = status; e.data = data; return pack(e); }
inline bool parse(const Bytes& b, Encaps& e) {
	R r(b); e.cmd = r.u16(); e.len = r.u16(); e.handle = r.u32(); e.status = r.u32(); e.ctx = r.take(8); e.options = r.u32(); e.data = r.rest();
	return r.ok && e.data.size() == e.len;
}

struct Item { uint16_t type = 0; Bytes data; bool operator==(const Item& o) const { return type == o.type && data == o.data; } };
inline Bytes packItems(const std::vector<Item>& v) { W w; w.u16(v.size()); for (auto& i : v) w.u16(i.type).u16(i.data.size()).raw(i.data); return w.b; }
// strict: count matches, nothing left over
inline bool parseItems(const Bytes& b, std::vector<Item>& out) {
	R r(b); uint16_t n = r.u16(); out.clear();
	for (unsigned i = 0; i < n && r.ok; ++i) { Item it; it.type = r.u16(); uint16_t l = r.u16(); it.data = r.take(l); out.push_back(it); }
	return r.ok && r.left() == 0;
}

struct Path { int n = 0; uint16_t id[3] = {0, 0, 0}; bool operator==(const Path& o) const { return n == o.n && id[0] == o.id[0] && id[1] == o.id[1] && id[2] == o.id[2]; } };
inline Path path(int c) { Path p; p.n = 1; p.id[0] = uint16_t(c); return p; }
inline Path path(int c, int i) { Path p = path(c); p.n = 2; p.id[1] = uint16_t(i); return p; }
inline Path path(int c, int i, int a) { Path p = path(c, i); p.n = 3; p.id[2] = uint16_t(a); return p; }
inline Bytes packPath(const Path& p, bool eight) {
	static const uint8_t seg[3] = {0x20, 0x24, 0x30};
	W w;
	for (int i = 0; i < p.n; ++i) { if (eight) w.u8(seg[i]).u8(p.id[i]); else w.u8(seg[i] | 1).u8(0).u16(p.id[i]); }
	return w.b;
}
inline std::string show(const Path& p) { std::ostringstream o; o << "("; for (int i = 0; i < p.n; ++i) o << (i ? "," : "") << p.id[i]; o << ")"; return o.str(); }
inline Bytes packRequest(uint8_t service, const Path& p, bool eight, const Bytes& data) { Bytes pp = packPath(p, eight); return W().u8(service).u8(pp.size() / 2).raw(pp).raw(data).b; }

struct Request { uint8_t service = 0; Path path; bool eight = false; Bytes rawPath; Bytes data; };
inline bool parseRequest(const Bytes& b, Request& q) {
	R r(b); q.service = r.u8(); unsigned words = r.u8(); q.rawPath = r.take(words * 2); q.data = r.rest();
	if (!r.ok) return false;
	R p(q.rawPath); q.path = Path(); int last = -1;
	while (p.ok && p.left()) {
		uint8_t s = p.u8(); int k = (s & 0xfe) == 0x20 ? 0 : (s & 0xfe) == 0x24 ? 1 : (s & 0xfe) == 0x30 ? 2 : -1;
		if (k != last + 1) return false;
		last = k; q.path.n = k + 1;
		if (s & 1) { if (p.u8() != 0) return false; q.path.id[k] = p.u16(); } else { q.path.id[k] = p.u8(); q.eight = true; }
	}
	return p.ok;
}

struct Reply { uint8_t service = 0, status = 0; std::vector<uint16_t> ext; Bytes data; std::vector<Item> items; };
inline Bytes packReply(const Reply& r) { W w; w.u8(r.service).u8(0).u8(r.status).u8(r.ext.size()); for (auto e : r.ext) w.u16(e); return w.raw(r.data).b; }
inline Bytes rrPayload(const std::vector<Item>& items) { return W().u32(0).u16(0).raw(packItems(items)).b; }
inline Bytes rrReply(const Reply& r) { std::vector<Item> v{{0, {}}, {0x00B2, packReply(r)}}; v.insert(v.end(), r.items.begin(), r.items.end()); return rrPayload(v); }
inline Bytes sockaddr(uint32_t ip, uint16_t port, uint16_t family = 2) { return W().u16be(family).u16be(port).u32be(ip).zeros(8).b; }
}
