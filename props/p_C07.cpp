// C07: explicit messaging through the standard and the Yaskawa message router.
#include "device.h"
#include "MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include <system_error>
#include <memory>
using namespace pbt;
using namespace eipScanner;
using wire::Item; using wire::Path;

namespace {
struct CustomError : std::runtime_error { int tag; explicit CustomError(int t) : std::runtime_error("custom " + std::to_string(t)), tag(t) {} };

void compare(Case& c, const cip::MessageRouterResponse& got, const wire::Reply& r) {
	expectEq(c, unsigned(got.getServiceCode()), unsigned(r.service), "service code of the reply");
	expectEq(c, unsigned(got.getGeneralStatusCode()), unsigned(r.status), "general status of the reply");
	EXPECT(c, got.getAdditionalStatus() == r.ext, "additional status words differ");
	expectEq(c, got.getData(), r.data, "reply data");
	auto& it = got.getAdditionalPacketItems();
	expectEq(c, it.size(), r.items.size(), "number of extra items in the reply");
	for (size_t i = 0; i < it.size(); ++i) { expectEq(c, unsigned(it[i].getTypeId()), unsigned(r.items[i].type), "type of extra item"); expectEq(c, it[i].getData(), r.items[i].data, "extra item"); expectEq(c, size_t(it[i].getLength()), r.items[i].data.size(), "length of extra item"); }
}
Bytes itemsRaw(const std::vector<Item>& v) { return wire::packItems(v); }

void run(Case& c) {
	unsigned kind = unsigned(c.below(3)); bool eight = kind == 1 || kind == 2;
	c.label(kind == 0 ? "16-bit paths" : kind == 1 ? "8-bit paths" : "Yaskawa");
	uint32_t handle = c.u32();
	auto d = std::make_shared<dev::Device>(c, handle); d->expectEight = eight;
	std::unique_ptr<MessageRouter> r; std::unique_ptr<Yaskawa_MessageRouter> y;
	if (kind == 2) y = std::make_unique<Yaskawa_MessageRouter>(); else if (kind == 1) r = std::make_unique<MessageRouter>(MessageRouter::USE_8_BIT_PATH_SEGMENTS); else r = c.coin() ? std::make_unique<MessageRouter>() : std::make_unique<MessageRouter>(false);
	unsigned n = 1 + unsigned(c.below(5)), ok = 0, bad = 0;
	c.desc << (kind == 0 ? "16-bit" : kind == 1 ? "8-bit" : "Yaskawa") << " handle " << handle << ":";
	for (unsigned i = 0; i < n; ++i) {
		uint8_t svc = c.u8(); Path p; p.n = 1 + int(c.below(3)); for (int k = 0; k < p.n; ++k) p.id[k] = eight ? c.u8() : c.u16();
		unsigned form = unsigned(c.below(3)); // 0: no data, 1: data, 2: data and items
		Bytes data; if (form >= 1) data = c.bytesUpTo(2000, {0, 1, 255, 256, 1000});
		std::vector<Item> extra; std::vector<eip::CommonPacketItem> xi;
		if (form == 2) { size_t k = c.below(4); for (size_t q = 0; q < k; ++q) { Item it; it.type = c.pick({uint16_t(0x8000), uint16_t(0x8001), uint16_t(0x00B1), uint16_t(0x0000), c.u16()}); it.data = c.bytesUpTo(40, {0, 16}); extra.push_back(it); xi.emplace_back(eip::CommonPacketItemIds(it.type), it.data); } }
		unsigned mode = unsigned(c.below(8)); // 0-4 good reply, 5 session error, 6-7 malformed
		wire::Reply rep; Bytes raw; bool reject = false; int err = 0; unsigned exKind = 0;
		d->before = nullptr;
		rep.service = c.coin() ? uint8_t(svc | 0x80) : c.u8(); rep.status = c.coin() ? 0 : c.u8();
		size_t ne = c.size(255, {0, 1, 2, 255}); if (c.coin()) ne = c.below(3); for (size_t q = 0; q < ne; ++q) rep.ext.push_back(c.u16());
		rep.data = c.bytesUpTo(3000, {0, 1, 2, 4, 500});
		size_t ni = c.coin() ? 0 : c.below(4); for (size_t q = 0; q < ni; ++q) { Item it; it.type = c.coin() ? uint16_t(0x8000 + c.below(2)) : c.u16(); it.data = c.bytesUpTo(40, {0, 16}); rep.items.push_back(it); }
		std::vector<Item> all{{0, {}}, {0x00B2, wire::packReply(rep)}}; all.insert(all.end(), rep.items.begin(), rep.items.end());
		raw = wire::rrPayload(all);
		c.desc << " [svc " << int(svc) << " " << wire::show(p) << " data " << data.size() << " items " << extra.size();
		if (mode <= 4) { c.desc << " -> status " << int(rep.status) << " ext " << ne << " data " << rep.data.size() << " items " << ni << "]"; if (rep.status) c.label("error status reply"); if (ni) c.label("reply with extra items"); if (ne) c.label("reply with additional status"); }
		else if (mode == 5) {
			exKind = unsigned(c.below(4)); err = int(c.pick({EAGAIN, ECONNRESET, EPIPE, ETIMEDOUT})); c.label("session error"); c.desc << " -> exception " << exKind << "]";
			d->before = [exKind, err] {
				if (exKind == 0) throw std::system_error(err, std::generic_category());
				if (exKind == 1) throw CustomError(err);
				if (exKind == 2) throw std::runtime_error("plain");
				throw std::logic_error("logic"); };
		} else {
			reject = true; c.label("malformed reply");
			switch (c.below(6)) {
			case 0: raw.resize(c.below(6)); c.label("fewer than 6 bytes"); break;
			case 1: { // cut strictly inside an item or inside the count
				std::vector<size_t> cuts; size_t pos = 6; cuts.push_back(6); cuts.push_back(7); pos = 8;
				for (auto& it : all) { for (size_t q = 1; q < 4 + it.data.size(); ++q) cuts.push_back(pos + q); pos += 4 + it.data.size(); }
				raw.resize(c.oneIn(2) ? cuts[c.below(std::min<size_t>(cuts.size(), 12))] : c.pick(cuts)); c.label("broken item list"); break; }
			case 2: { // fewer than two items, announced consistently
				size_t k = c.below(2); std::vector<Item> few(all.begin(), all.begin() + long(k)); if (k && c.coin()) few[0] = all[1]; raw = wire::rrPayload(few); c.label("fewer than two items"); break; }
			case 3: { // item length beyond the end
				size_t k = c.below(all.size()); size_t pos = 8; for (size_t q = 0; q < k; ++q) pos += 4 + all[q].data.size();
				// only the last item can announce too much without swallowing the next ones' bytes into well-formed items
				k = all.size() - 1; pos = raw.size() - 4 - all[k].data.size();
				uint32_t len = uint32_t(all[k].data.size() + 1 + c.below(1000)); if (len > 65535) len = 65535; if (len <= all[k].data.size()) throw Discard{};
				raw[pos + 2] = uint8_t(len); raw[pos + 3] = uint8_t(len >> 8); c.label("item longer than the packet"); break; }
			case 4: { // message-router reply shorter than its fixed part
				all[1].data.resize(c.below(4)); raw = wire::rrPayload(all); c.label("reply under 4 bytes"); break; }
			default: { // additional status does not fit
				Bytes m = wire::packReply(rep); unsigned words = unsigned(1 + c.below(255)); m[3] = uint8_t(words); m.resize(4 + c.below(words * 2)); all[1].data = m; raw = wire::rrPayload(all); c.label("additional status cut"); break; }
			}
			c.desc << " -> malformed " << hex(raw, 24) << "]";
		}
		Bytes* rawp = &raw; d->onRaw = [rawp](const dev::Exchange&) { return *rawp; };
		size_t before = d->log.size();
		cip::MessageRouterResponse got;
		auto call = [&] {
			if (kind == 2) { cip::Yaskawa_EPath ep = p.n == 1 ? cip::Yaskawa_EPath(uint8_t(p.id[0])) : p.n == 2 ? cip::Yaskawa_EPath(uint8_t(p.id[0]), uint8_t(p.id[1])) : cip::Yaskawa_EPath(uint8_t(p.id[0]), uint8_t(p.id[1]), uint8_t(p.id[2]));
				got = form == 0 ? y->sendRequest(d, svc, ep) : form == 1 ? y->sendRequest(d, svc, ep, data) : y->sendRequest(d, svc, ep, data, xi); }
			else { auto ep = dev::toEPath(p); got = form == 0 ? r->sendRequest(d, svc, ep) : form == 1 ? r->sendRequest(d, svc, ep, data) : r->sendRequest(d, svc, ep, data, xi); } };
		if (mode == 5) {
			bool same = false;
			try { call(); }
			catch (const std::system_error& e) { same = exKind == 0 && e.code() == std::error_code(err, std::generic_category()); }
			catch (const CustomError& e) { same = exKind == 1 && e.tag == err; }
			catch (const std::runtime_error& e) { same = exKind == 2 && std::string(e.what()) == "plain"; }
			catch (const std::logic_error& e) { same = exKind == 3 && std::string(e.what()) == "logic"; }
			EXPECT(c, same, "an error raised by the session did not reach the caller unchanged"); ++bad;
		} else if (reject) { mustThrow(c, "malformed reply", call); ++bad; }
		else { mustPass(c, "request", call); compare(c, got, rep); ++ok; }
		expectEq(c, d->log.size(), before + 1, "packets sent for one request");
		auto& x = d->log.back();
		expectEq(c, x.req.service, svc, "service in the request"); EXPECT(c, x.req.path == p, "path in the request: " << wire::show(x.req.path)); expectEq(c, x.req.data, data, "data in the request");
		expectEq(c, x.extra.size(), extra.size(), "extra items in the request");
		for (size_t q = 0; q < extra.size(); ++q) { expectEq(c, x.extra[q].type, extra[q].type, "type of extra item in the request"); expectEq(c, x.extra[q].data, extra[q].data, "extra item in the request"); }
	}
	if (n >= 2) c.label("router reused"); if (ok && bad) c.label("used after a failure");
	c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C07",
	"Histories of 1-5 requests through one router (standard 16-bit, standard 8-bit, Yaskawa) to a scripted device: random service, path, data to 2000 bytes and extra items; replies with any service/status byte, 0-255 additional status words, data to 3000 bytes and extra items, malformed payloads of six kinds, or exceptions raised by the session. Oracle: an independent codec parses the one packet sent and the reply must come back field by field; malformed replies must raise std::runtime_error; session exceptions keep type and value. Non-trivial: every case (each makes at least one exchange).",
	run, 512, 120000, 3000000, 1200, 60000};
