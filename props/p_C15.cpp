// C15: identity object read-out.
#include "device.h"
#include "IdentityObject.h"
#include <memory>
using namespace pbt;
using namespace eipScanner;

namespace {
struct Id { uint16_t vendor = 0, type = 0, product = 0; uint8_t major = 0, minor = 0; uint16_t status = 0; uint32_t serial = 0; std::string name;
	bool operator==(const Id& o) const { return vendor == o.vendor && type == o.type && product == o.product && major == o.major && minor == o.minor && status == o.status && serial == o.serial && name == o.name; } };
Id gen(Case& c) { Id i; i.vendor = c.u16(); i.type = c.u16(); i.product = c.u16(); i.major = c.u8(); i.minor = c.u8(); i.status = c.u16(); i.serial = c.u32(); i.name = c.text(c.size(255, {0, 1, 127, 128, 254, 255})); return i; }
Bytes pack(const Id& i) { return wire::W().u16(i.vendor).u16(i.type).u16(i.product).u8(i.major).u8(i.minor).u16(i.status).u32(i.serial).shortStr(i.name).b; }
void same(Case& c, const IdentityObject& o, const Id& i) {
	expectEq(c, o.getVendorId(), i.vendor, "vendor id"); expectEq(c, o.getDeviceType(), i.type, "device type"); expectEq(c, o.getProductCode(), i.product, "product code");
	expectEq(c, o.getRevision().getMajorRevision(), i.major, "major revision"); expectEq(c, o.getRevision().getMinorRevision(), i.minor, "minor revision");
	EXPECT(c, o.getRevision() == cip::CipRevision(i.major, i.minor), "revision does not equal itself"); expectEq(c, o.getRevision().toString(), std::to_string(i.major) + "." + std::to_string(i.minor), "revision text");
	expectEq(c, o.getStatus(), i.status, "status word"); expectEq(c, o.getSerialNumber(), i.serial, "serial number"); expectEq(c, o.getProductName(), i.name, "product name");
}
void set(Case& c, IdentityObject& o, Id& i) {
	Id n = gen(c);
	switch (c.below(7)) { case 0: o.setVendorId(i.vendor = n.vendor); break; case 1: o.setDeviceType(i.type = n.type); break; case 2: o.setProductCode(i.product = n.product); break;
	case 3: i.major = n.major; i.minor = n.minor; o.setRevision(cip::CipRevision(i.major, i.minor)); break; case 4: o.setStatus(i.status = n.status); break; case 5: o.setSerialNumber(i.serial = n.serial); break; default: o.setProductName(i.name = n.name); }
}
void run(Case& c) {
	uint16_t instance = c.u16(); Id id = gen(c); unsigned k = unsigned(c.below(8)); std::unique_ptr<IdentityObject> o;
	c.desc << "instance " << instance << " vendor " << id.vendor << " serial " << id.serial << " name[" << id.name.size() << "]";
	auto d = std::make_shared<dev::Device>(c, c.u32());
	if (k == 0) { // made without a device
		o = std::make_unique<IdentityObject>(instance); id = Id(); c.label("built from values");
	} else {
		wire::Reply r; r.service = 0x81; r.data = pack(id); bool bad = false;
		size_t need = r.data.size();
		if (k == 1) { r.status = dev::errorStatus(c); if (c.coin()) r.data = c.bytesUpTo(30); if (c.coin()) r.ext.push_back(c.u16()); bad = true; c.label("error status"); c.desc << " status " << int(r.status); }
		else if (k <= 3) { r.data.resize(c.oneIn(2) ? need - 1 - c.below(std::min<size_t>(need, 4)) : c.below(need)); bad = true; c.label("truncated reply"); c.desc << " cut to " << r.data.size() << " of " << need; }
		else if (k == 4) { Bytes t = c.bytesUpTo(300, {1, 255, 256}); r.data.insert(r.data.end(), t.begin(), t.end()); c.label("trailing bytes"); c.desc << " +" << t.size(); }
		else if (c.oneIn(6)) { r.items.push_back({0x8000, c.bytesUpTo(20)}); }
		if (!bad && c.oneIn(6)) r.ext.push_back(c.u16()); // additional status words of a successful reply
		d->onRequest = [&](const dev::Exchange& x) {
			expectEq(c, x.req.service, uint8_t(0x01), "service"); EXPECT(c, x.req.path == wire::path(1, instance), "path: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes(), "request data"); EXPECT(c, x.extra.empty(), "extra items in the request"); return r; };
		auto make = [&] { if (c.coin()) o = std::make_unique<IdentityObject>(instance, d); else o = std::make_unique<IdentityObject>(instance, d, std::make_shared<MessageRouter>()); };
		if (bad) mustThrow(c, "identity of a refused or short reply", make); else mustPass(c, "identity", make);
		expectEq(c, d->log.size(), size_t(1), "number of requests"); c.nontrivial();
		if (bad) return;
		c.label("read from a device");
	}
	expectEq(c, o->getInstanceId(), instance, "instance id"); expectEq(c, o->getClassId(), uint16_t(1), "class id");
	same(c, *o, id);
	unsigned n = unsigned(c.below(10)); for (unsigned i = 0; i < n; ++i) { set(c, *o, id); same(c, *o, id); }
	if (n) { c.nontrivial(); c.label("values set"); IdentityObject copy(*o); same(c, copy, id); }
	expectEq(c, o->getInstanceId(), instance, "instance id after setting values");
}
}
extern const Property pbt::theProperty = {"C15",
	"Random identities (all field values, names of 0-255 arbitrary characters) on random instances, read through a scripted device that answers exactly, with trailing bytes, truncated anywhere, or with an error status; then 0-9 setter calls against a model record. Oracle: an independent encoder and the record. Non-trivial: a reply was processed or a value set.",
	run, 512, 250000, 6000000, 700, 100000};
