// C16: parameter objects: read-out, refresh, scaling.
#include "device.h"
#include "ParameterObject.h"
#include <cmath>
#include <memory>
using namespace pbt;
using namespace eipScanner;

namespace {
struct P { // what the device (or the model of a local object) holds
	bool full = false, scalable = false, readOnly = false; unsigned size = 1; uint8_t type = 0; uint64_t value = 0, min = 0, max = 0, def = 0; bool limits = true, known = true;
	std::string name, units, help; uint16_t mult = 1, div = 1, base = 1; int16_t off = 0; uint8_t prec = 0; uint16_t param = 0;
};
uint64_t mask(unsigned size) { return size == 8 ? UINT64_MAX : (uint64_t(1) << (8 * size)) - 1; }
uint64_t val(Case& c, unsigned size) { return c.bits(8 * size) & mask(size); }
uint16_t factor(Case& c) { uint16_t v = c.oneIn(3) ? c.u16() : c.pick({uint16_t(1), uint16_t(2), uint16_t(3), uint16_t(7), uint16_t(10), uint16_t(100), uint16_t(1000), uint16_t(65535)}); return v ? v : 1; }
uint8_t precision(Case& c) { return c.oneIn(8) ? c.u8() : uint8_t(c.below(6)); }
Bytes raw(uint64_t v, unsigned size) { Bytes b; for (unsigned i = 0; i < size; ++i) b.push_back(uint8_t(v >> (8 * i))); return b; }

long double eng(const P& p, long double v) { if (!p.scalable) return v; return (v + p.off) * p.mult * p.base / (p.div * powl(10, p.prec)); }
void near(Case& c, double got, long double want, const char* what) {
	long double tol = 1e-10L * fabsl(want) + 1e-300L;
	if (!(fabsl(got - want) <= tol)) { std::ostringstream o; o.precision(20); o << what << ": got " << got << " want " << want; c.fail(o.str()); }
}
// (v + off) may cancel: the tolerance is relative to the terms
void nearEng(Case& c, double got, const P& p, long double v, const char* what) {
	long double want = eng(p, v), scale = p.scalable ? fabsl(eng(p, 0)) + fabsl(eng(p, v)) + fabsl(v) * p.mult * p.base / (p.div * powl(10, p.prec)) : fabsl(v);
	if (!(fabsl(got - want) <= 1e-10L * scale + 1e-300L)) { std::ostringstream o; o.precision(20); o << what << " of " << v << ": got " << got << " want " << want; c.fail(o.str()); }
}
template <class T> void valuesAs(Case& c, const ParameterObject& o, const P& p) {
	EXPECT(c, o.getActualValue<T>() == T(p.value), "actual value: got " << +o.getActualValue<T>() << " want " << +T(p.value));
	nearEng(c, o.getEngValue<T>(), p, static_cast<long double>(T(p.value)), "engineering value");
	if (!p.limits) return;
	EXPECT(c, o.getMinValue<T>() == T(p.min), "minimum: got " << +o.getMinValue<T>() << " want " << +T(p.min)); EXPECT(c, o.getMaxValue<T>() == T(p.max), "maximum: got " << +o.getMaxValue<T>() << " want " << +T(p.max));
	EXPECT(c, o.getDefaultValue<T>() == T(p.def), "default: got " << +o.getDefaultValue<T>() << " want " << +T(p.def));
	nearEng(c, o.getEngMinValue<T>(), p, static_cast<long double>(T(p.min)), "engineering minimum"); nearEng(c, o.getEngMaxValue<T>(), p, static_cast<long double>(T(p.max)), "engineering maximum"); nearEng(c, o.getEngDefaultValue<T>(), p, static_cast<long double>(T(p.def)), "engineering default");
}
template <class T> void setLimit(Case& c, ParameterObject& o, P& p) {
	T v = T(val(c, sizeof(T))); if (sizeof(T) == 8) v = T(std::is_signed_v<T> ? int64_t(v) >> 16 : int64_t(uint64_t(v) >> 16)); // 48 bits: a double holds it with room to spare
	unsigned which = unsigned(c.below(3)); double e = double(eng(p, static_cast<long double>(v))); if (c.coin()) e = o.actualToEngValue(double(v));
	c.desc << " set" << (which == 0 ? "Min" : which == 1 ? "Max" : "Default") << "(" << +v << ")";
	if (which == 0) { o.setEngMinValue<T>(e); p.min = uint64_t(v) & mask(sizeof(T)); } else if (which == 1) { o.setEngMaxValue<T>(e); p.max = uint64_t(v) & mask(sizeof(T)); } else { o.setEngDefaultValue<T>(e); p.def = uint64_t(v) & mask(sizeof(T)); }
	T got = which == 0 ? o.getMinValue<T>() : which == 1 ? o.getMaxValue<T>() : o.getDefaultValue<T>();
	EXPECT(c, got == v, "limit set by the engineering value of " << +v << " reads back as " << +got << " (engineering value " << e << ")"); c.label("limit set in engineering units");
}
void all(Case& c, const ParameterObject& o, const P& p) {
	expectEq(c, o.hasFullAttributes(), p.full, "full attributes"); expectEq(c, o.isScalable(), p.scalable, "scalable"); expectEq(c, o.isReadOnly(), p.readOnly, "read-only");
	if (p.known) expectEq(c, unsigned(o.getType()), unsigned(p.type), "type");
	expectEq(c, o.getParameter(), p.param, "parameter number");
	expectEq(c, o.getName(), p.name, "name"); expectEq(c, o.getUnits(), p.units, "units"); expectEq(c, o.getHelp(), p.help, "help");
	expectEq(c, o.getScalingMultiplier(), p.mult, "multiplier"); expectEq(c, o.getScalingDivisor(), p.div, "divisor"); expectEq(c, o.getScalingBase(), p.base, "base"); expectEq(c, o.getScalingOffset(), p.off, "offset"); expectEq(c, o.getPrecision(), p.prec, "precision");
	bool s = c.coin();
	switch (p.size) { case 1: s ? valuesAs<int8_t>(c, o, p) : valuesAs<uint8_t>(c, o, p); break; case 2: s ? valuesAs<int16_t>(c, o, p) : valuesAs<uint16_t>(c, o, p); break; case 4: s ? valuesAs<int32_t>(c, o, p) : valuesAs<uint32_t>(c, o, p); break; default: s ? valuesAs<int64_t>(c, o, p) : valuesAs<uint64_t>(c, o, p); }
	// general conversions
	double v = c.coin() ? double(int64_t(c.bits(48))) - double(int64_t(1) << 47) : double(int32_t(c.u32())) / 1024;
	nearEng(c, o.actualToEngValue(v), p, v, "actualToEngValue");
	double back = o.engToActualValue(o.actualToEngValue(v)); if (!(std::fabs(back - v) <= 1e-9 * (std::fabs(v) + std::fabs(double(p.off))) + 1e-9)) { std::ostringstream os; os.precision(20); os << "engToActualValue does not undo actualToEngValue: " << v << " came back as " << back; c.fail(os.str()); }
	if (!p.scalable) near(c, o.engToActualValue(v), v, "engToActualValue of an unscaled parameter");
}
void run(Case& c) {
	uint16_t instance = c.u16(); P p; p.size = c.pick({1u, 2u, 4u, 8u}); p.full = c.coin(); std::unique_ptr<ParameterObject> o; auto d = std::make_shared<dev::Device>(c, c.u32());
	unsigned mode = unsigned(c.below(8)); bool local = mode == 0;
	c.desc << (local ? "local " : "") << "parameter " << instance << " size " << p.size << (p.full ? " full" : " short");
	if (local) { o = std::make_unique<ParameterObject>(instance, p.full, size_t(p.size)); p.known = false; p.param = instance; c.label("local object"); }
	else {
		uint16_t descr = c.u16(); p.scalable = descr & 4; p.readOnly = descr & 16; p.type = c.u8(); p.param = instance; p.value = val(c, p.size);
		P dv = p; // everything the device holds
		dv.name = c.text(c.size(255, {0, 1, 255})); dv.units = c.text(c.size(255, {0, 1, 4})); dv.help = c.text(c.size(255, {0, 64}));
		dv.min = val(c, p.size); dv.max = val(c, p.size); dv.def = val(c, p.size); dv.mult = factor(c); dv.div = factor(c); dv.base = factor(c); dv.off = int16_t(c.u16()); dv.prec = precision(c);
		if (p.full) { p.name = dv.name; p.units = dv.units; p.help = dv.help; p.min = dv.min; p.max = dv.max; p.def = dv.def; if (p.scalable) { p.mult = dv.mult; p.div = dv.div; p.base = dv.base; p.off = dv.off; p.prec = dv.prec; } } else p.limits = false;
		Bytes link = c.bytesUpTo(255, {0, 4, 255});
		wire::W w; w.raw(raw(p.value, p.size)).u8(link.size()).raw(link).u16(descr).u8(p.type); size_t need = w.b.size();
		wire::W w2; w2.u8(p.size).shortStr(dv.name).shortStr(dv.units).shortStr(dv.help).raw(raw(dv.min, p.size)).raw(raw(dv.max, p.size)).raw(raw(dv.def, p.size)); size_t need2 = need + w2.b.size();
		Bytes scal; if (c.coin()) scal = wire::W().u16(dv.mult).u16(dv.div).u16(dv.base).u16(uint16_t(dv.off)).zeros(8).b; else { scal = c.bytes(16); scal.resize(16); } scal.push_back(dv.prec);
		Bytes attrAll = w.raw(w2.b).b; bool scalingRead = p.full && p.scalable; if (p.full) need = need2; if (scalingRead || c.coin()) attrAll.insert(attrAll.end(), scal.begin(), scal.end()); if (scalingRead) need = attrAll.size();
		if (!p.full && c.oneIn(3)) attrAll.resize(need); // a device that implements the stub form only
		if (c.oneIn(4)) { Bytes t = c.bytesUpTo(20); attrAll.insert(attrAll.end(), t.begin(), t.end()); }
		// --- faults: which reply, how
		unsigned nRep = scalingRead ? 6 : 2; int at = -1, how = 0; uint8_t err = dev::errorStatus(c); // how 0: error status, 1: short
		if (mode <= 3) { at = int(c.below(nRep)); how = int(c.below(2)); c.label(how ? "short reply" : "error status"); c.desc << (how ? " short reply " : " error in reply ") << at; }
		std::vector<int> asked(17, 0); Bytes sizeRep = wire::W().u8(p.size).b; if (c.oneIn(8)) sizeRep.push_back(c.u8());
		d->onRequest = [&](const dev::Exchange& x) {
			wire::Reply r; r.service = x.req.service | 0x80; int which; expectEq(c, x.req.data, Bytes(), "data of a parameter request");
			if (x.req.service == 0x01) { EXPECT(c, x.req.path == wire::path(0x0F, instance), "path reading all attributes: " << wire::show(x.req.path)); which = 1; r.data = attrAll; EXPECT(c, ++asked[0] == 1, "all attributes read twice"); if (at == 1 && how == 1) r.data.resize(c.oneIn(2) ? need - 1 - c.below(std::min<size_t>(need, 20)) : c.below(need)); }
			else {
				expectEq(c, x.req.service, uint8_t(0x0E), "service of a parameter request"); unsigned a = x.req.path.id[2]; EXPECT(c, x.req.path == wire::path(0x0F, instance, int(a)), "path reading an attribute: " << wire::show(x.req.path));
				bool sc = a >= 13 && a <= 16; EXPECT(c, a == 6 || (sc && scalingRead), "unexpected request of attribute " << a); EXPECT(c, ++asked[a] == 1, "attribute " << a << " read twice");
				which = a == 6 ? 0 : int(2 + a - 13); r.data = a == 6 ? sizeRep : wire::W().u16(a == 13 ? dv.mult : a == 14 ? dv.div : a == 15 ? dv.base : uint16_t(dv.off)).b;
				if (which == at && how == 1) r.data.resize(a == 6 ? 0 : c.below(2)); }
			if (which == at && how == 0) { r.status = err; if (c.coin()) r.data.clear(); if (c.coin()) r.ext.push_back(c.u16()); }
			return r; };
		auto make = [&] { if (c.coin()) o = std::make_unique<ParameterObject>(instance, p.full, d); else o = std::make_unique<ParameterObject>(instance, p.full, d, std::make_shared<MessageRouter>()); };
		c.nontrivial();
		if (at >= 0) { mustThrow(c, "parameter with a refused or short reply", make); return; }
		mustPass(c, "parameter", make); EXPECT(c, asked[0] == 1 && asked[6] == 1, "data size or attributes were not read"); if (scalingRead) EXPECT(c, asked[13] && asked[14] && asked[15] && asked[16], "not every scaling attribute was read"); c.label(p.full ? p.scalable ? "full scalable" : "full not scalable" : "stub");
	}
	expectEq(c, o->getClassId(), uint16_t(0x0F), "class id"); expectEq(c, o->getInstanceId(), instance, "instance id");
	if (local) p.limits = true;
	all(c, *o, p);
	unsigned n = unsigned(c.below(12)), refreshed = 0, failed = 0;
	for (unsigned i = 0; i < n; ++i) {
		switch (c.below(5)) {
		case 0: // setters
			switch (c.below(11)) { case 0: o->setScalable(p.scalable = c.coin()); break; case 1: o->setReadOnly(p.readOnly = c.coin()); break; case 2: p.type = c.u8(); p.known = true; o->setType(cip::CipDataTypes(p.type)); break; case 3: o->setName(p.name = c.text(c.size(300))); break; case 4: o->setUnits(p.units = c.text(c.size(300))); break; case 5: o->setHelp(p.help = c.text(c.size(300))); break;
			case 6: o->setScalingMultiplier(p.mult = factor(c)); break; case 7: o->setScalingDivisor(p.div = factor(c)); break; case 8: o->setScalingBase(p.base = factor(c)); break; case 9: o->setScalingOffset(p.off = int16_t(c.u16())); break; default: o->setPrecision(p.prec = precision(c)); }
			c.desc << " set"; break;
		case 1: { bool s = c.coin(); p.limits = p.limits || false; auto keep = p.limits;
			switch (p.size) { case 1: s ? setLimit<int8_t>(c, *o, p) : setLimit<uint8_t>(c, *o, p); break; case 2: s ? setLimit<int16_t>(c, *o, p) : setLimit<uint16_t>(c, *o, p); break; case 4: s ? setLimit<int32_t>(c, *o, p) : setLimit<uint32_t>(c, *o, p); break; default: s ? setLimit<int64_t>(c, *o, p) : setLimit<uint64_t>(c, *o, p); }
			p.limits = keep; c.nontrivial(); break; }
		default: { // refresh
			unsigned k = unsigned(c.below(4)); uint64_t v = val(c, p.size); Bytes rep = raw(v, p.size); uint8_t st = 0; bool ok = k < 2; bool lost = false;
			if (k == 1) { Bytes t = c.bytesUpTo(6); rep.insert(rep.end(), t.begin(), t.end()); } if (k == 2) rep.resize(c.below(p.size)); if (k == 3) { lost = c.oneIn(3); st = dev::errorStatus(c); if (c.coin()) rep.clear(); }
			c.desc << (ok ? " refresh" : k == 2 ? " refresh!short" : lost ? " refresh!session" : " refresh!error");
			d->onRequest = [&](const dev::Exchange& x) { if (lost) throw std::runtime_error("lost"); wire::Reply r; r.service = 0x8E; expectEq(c, x.req.service, uint8_t(0x0E), "service of a refresh"); EXPECT(c, x.req.path == wire::path(0x0F, instance, 1), "path of a refresh: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes(), "data of a refresh"); r.data = rep; r.status = st; return r; };
			size_t before = d->log.size(); auto f = [&] { o->updateValue(d); };
			if (ok) { mustPass(c, "refresh", f); p.value = v; ++refreshed; } else { mustThrow(c, "refresh with a refused or short reply", f); ++failed; }
			expectEq(c, d->log.size(), before + 1, "requests of a refresh"); break; }
		}
		all(c, *o, p);
	}
	if (refreshed) c.label("refreshed"); if (failed) c.label("refresh failed"); if (refreshed && failed) c.label("refresh after a failed refresh");
}
}
extern const Property pbt::theProperty = {"C16",
	"Parameter objects read from a scripted device (stub and full form, any descriptor, type, value, link path, strings, limits, non-zero scaling factors, sizes 1/2/4/8, trailing bytes; error status or truncation of any one of the 2 or 6 replies) or built locally, followed by 0-11 steps of setters, limits set in engineering units, and refreshes (of local objects, too) that succeed, are refused, cut or lost. Oracle: an independent encoder, a model record compared in full after every step, long-double scaling formula, and the inverse relation. Non-trivial: read from a device, or a limit set.",
	run, 512, 120000, 3000000, 1400, 60000};
