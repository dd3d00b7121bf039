// C04: common packet item lists.
#include "engine.h"
#include "wire.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
using namespace pbt;
using namespace eipScanner::eip;
using wire::Item;

namespace {
uint16_t genType(Case& c) { return c.coin() ? c.pick<uint16_t>({0x0000, 0x000C, 0x00A1, 0x00B1, 0x00B2, 0x8000, 0x8001, 0x8002}) : c.u16(); }
Item genItem(Case& c) { Item i; i.type = genType(c); i.data = c.oneIn(12) ? c.bytesUpTo(65535, {65535, 65534, 32768}) : c.bytesUpTo(600, {0, 255, 256}); return i; }
std::vector<Item> genItems(Case& c) { std::vector<Item> v(c.oneIn(24) ? 200 + c.below(200) : c.size(10)); bool small = v.size() > 10; for (auto& i : v) { i = small ? Item{genType(c), c.bytes(c.below(3))} : genItem(c); } return v; }
CommonPacketItem toItem(const Item& i) { return CommonPacketItem(CommonPacketItemIds(i.type), i.data); }
std::string showItems(const std::vector<Item>& v) { std::ostringstream s; s << v.size() << " items:"; for (size_t i = 0; i < v.size() && i < 6; ++i) s << " 0x" << std::hex << v[i].type << std::dec << "[" << v[i].data.size() << "]" << hex(v[i].data, 8); return s.str(); }
void compareItem(Case& c, const CommonPacketItem& got, const Item& want, const std::string& what) {
	expectEq(c, uint16_t(got.getTypeId()), want.type, what + ": type");
	expectEq(c, got.getLength(), uint16_t(want.data.size()), what + ": length");
	expectEq(c, Bytes(got.getData()), want.data, what + ": data");
	expectEq(c, got.pack(), wire::W().u16(want.type).u16(want.data.size()).raw(want.data).b, what + ": encoding");
}
void compareItems(Case& c, CommonPacket& p, const std::vector<Item>& want, const std::string& what) {
	auto& got = p.getItems();
	expectEq(c, got.size(), want.size(), what + ": number of items");
	for (size_t i = 0; i < want.size(); ++i) { compareItem(c, got[i], want[i], what + ": item " + std::to_string(i)); EXPECT(c, got[i] == toItem(want[i]) && !(got[i] != toItem(want[i])), what << ": item " << i << " compares unequal"); }
}
void run(Case& c) {
	switch (c.below(6)) {
	case 0: { // encode
		auto v = genItems(c); c.label("encode"); c.desc << "encode " << showItems(v);
		CommonPacket p; std::vector<Item> sofar;
		expectEq(c, p.pack(), Bytes{0, 0}, "encoding of an empty packet");
		for (auto& i : v) { CommonPacket& r = (p << toItem(i)); EXPECT(c, &r == &p, "operator<< does not return the packet"); }
		expectEq(c, p.pack(), wire::packItems(v), "encoded item list");
		compareItems(c, p, v, "added items");
		expectEq(c, p.pack(), wire::packItems(v), "encoding twice");
		if (v.size() >= 1) c.nontrivial(); break; }
	case 1: { // decode into possibly used object, then add more
		c.label("decode"); CommonPacket p; unsigned n = 1 + unsigned(c.below(3));
		for (unsigned k = 0; k < n; ++k) {
			auto v = genItems(c); c.desc << "decode " << showItems(v) << "; ";
			if (c.oneIn(3)) { p << toItem(genItem(c)); c.label("decode replaces items"); }
			mustPass(c, "well-formed item list", [&] { p.expand(wire::packItems(v)); });
			compareItems(c, p, v, "decoded items");
			expectEq(c, p.pack(), wire::packItems(v), "re-encoded item list");
			if (c.oneIn(4)) { Item x = genItem(c); p << toItem(x); v.push_back(x); compareItems(c, p, v, "items after adding to a decoded packet"); expectEq(c, p.pack(), wire::packItems(v), "encoding after adding"); }
			if (v.size() >= 1) c.nontrivial();
		}
		break; }
	case 2: { // truncation inside an item
		auto v = genItems(c); if (v.empty()) v.push_back(genItem(c));
		Bytes b = wire::packItems(v); c.label("truncate");
		// choose an item and a point strictly inside it
		size_t k = c.below(v.size()), off = 2; for (size_t i = 0; i < k; ++i) off += 4 + v[i].data.size();
		size_t len = 4 + v[k].data.size(); size_t cut = off + 1 + (c.coin() ? c.below(std::min<size_t>(len - 1, 4)) : c.below(len - 1));
		b.resize(cut); c.desc << "cut at " << cut << " inside item " << k << " of " << showItems(v);
		CommonPacket p; if (c.coin()) p << toItem(genItem(c));
		mustThrow(c, "item list cut inside an item", [&] { p.expand(b); });
		// the object stays usable
		auto w = genItems(c); mustPass(c, "well-formed item list after a failed decode", [&] { p.expand(wire::packItems(w)); }); compareItems(c, p, w, "items after a failed decode");
		c.nontrivial(); break; }
	case 3: { // an item length that runs past the end
		auto v = genItems(c); if (v.empty()) v.push_back(genItem(c)); if (v.back().data.size() == 65535) v.back().data.pop_back();
		Bytes b = wire::packItems(v); size_t at = b.size() - v.back().data.size() - 2; uint16_t l = uint16_t(v.back().data.size() + 1 + c.below(65535 - v.back().data.size()));
		b[at] = uint8_t(l); b[at + 1] = uint8_t(l >> 8); c.label("length past the end"); c.desc << "last length " << l << " instead of " << v.back().data.size() << " in " << showItems(v);
		CommonPacket p; mustThrow(c, "item longer than the input", [&] { p.expand(b); }); c.nontrivial(); break; }
	case 4: { // equality
		Item a = genItem(c), b = a; const char* f = "nothing";
		switch (c.below(4)) { case 0: break; case 1: b.type ^= uint16_t(1u << c.below(16)); f = "type"; break;
			case 2: if (!b.data.empty()) b.data[c.below(b.data.size())] ^= uint8_t(1u << c.below(8)); f = "data"; break;
			case 3: if (!b.data.empty()) b.data.pop_back(); f = "length"; break; }
		c.label("equality"); c.desc << "items differing in " << f << " 0x" << std::hex << a.type << std::dec << " " << hex(a.data, 20);
		bool eq = a == b; auto x = toItem(a), y = toItem(b);
		EXPECT(c, (x == y) == eq && (y == x) == eq && (x != y) == !eq, "item equality wrong for items differing in " << f);
		auto z = x; EXPECT(c, z == x, "copy differs"); c.nontrivial(); break; }
	default: {
		CommonPacketItemFactory f; c.label("factory");
		Bytes d = c.bytesUpTo(65535, {0, 255, 256, 65535}); uint32_t id = c.u32(), seq = c.u32(); c.desc << "factory items id " << id << " seq " << seq << " data[" << d.size() << "]";
		compareItem(c, f.createNullAddressItem(), Item{0, {}}, "null address item");
		compareItem(c, CommonPacketItem(), Item{0, {}}, "default item");
		compareItem(c, f.createUnconnectedDataItem(d), Item{0xB2, d}, "unconnected data item");
		compareItem(c, f.createConnectedDataItem(d), Item{0xB1, d}, "connected data item");
		compareItem(c, f.createSequenceAddressItem(id, seq), Item{0x8002, wire::W().u32(id).u32(seq).b}, "sequenced address item");
		c.nontrivial(); break; }
	}
}
}
extern const Property pbt::theProperty = {"C04",
	"Random item lists (0-10 items, sometimes 200-400; known and arbitrary type ids; data 0..65535 bytes) encoded, decoded into fresh and used objects, extended after decoding, cut at a chosen point strictly inside a chosen item, given an item length past the end, compared pairwise, plus the ready-made items; oracle is an independent item codec. Non-trivial: at least one item was encoded or decoded, a cut or overlong item had to be rejected, or items were compared.",
	run, 256, 100000, 2500000, 250, 160000};
