// A program of operations against a device whose answers are damaged at chosen points (C25, C29).
#pragma once
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include <sanitizer/allocator_interface.h>
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <memory>
#include <new>
#include <set>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;


// maintained by properties that replace operator new
static int64_t liveBytes = 0, peakBytes = 0;

namespace {
enum Kind { REQUEST, IDENTITY, PARAMETER, UPLOAD, FAULTS, OPEN, CLOSE, TRAFFIC, DISCOVER, KINDS };
const char* kindName[] = {"request", "identity", "parameter", "upload", "faults", "open", "close", "traffic", "discover"};
enum Layer { DATA, STATUS, REPLY, ITEMS, PAYLOAD, HEADER, STREAM, LAYERS };
const char* layerName[] = {"data", "status", "reply", "items", "payload", "header", "stream"};
struct Mut { unsigned at = 0; bool on = false; unsigned layer = 0, kind = 0, a = 0, b = 0; Bytes junk; };
struct Op { unsigned kind = 0, a = 0, b = 0; Bytes data; std::vector<Mut> muts; bool connectFails = false; };
const uint32_t T = 40000; // receive timeout, us
const uint32_t HANDLE = 0x12345678;

void edit(Bytes& v, const Mut& m) {
	static const uint32_t edge[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu};
	auto put = [&](unsigned n) { uint32_t x = edge[m.b % 13]; for (unsigned i = 0; i < n && m.a % (v.size() + 1) + i < v.size(); ++i) v[m.a % (v.size() + 1) + i] = uint8_t(x >> (8 * i)); };
	switch (m.kind % 9) {
	case 0: if (!v.empty()) v[m.a % v.size()] ^= uint8_t(1 << (m.b & 7)); break;
	case 1: if (!v.empty()) v[m.a % v.size()] = uint8_t(m.b); break;
	case 2: v.resize(m.a % (v.size() + 1)); break;
	case 3: v.insert(v.end(), m.junk.begin(), m.junk.end()); break;
	case 4: v = m.junk; break;
	case 5: put(2); break;
	case 6: put(4); break;
	case 7: v.insert(v.begin() + long(m.a % (v.size() + 1)), m.junk.begin(), m.junk.end()); break;
	default: if (!v.empty()) { size_t f = m.a % v.size(), n = std::min<size_t>(1 + m.b % 8, v.size() - f); v.erase(v.begin() + long(f), v.begin() + long(f + n)); } } }

struct Body {
	Case& c; const std::vector<Op>& prog; sim::Scope sc; sim::Net& n; std::ostringstream trace; bool calm = false; // calm: the peer behaves
	const Op* op = nullptr; unsigned ex = 0, hits = 0; bool stale = false, oddOpen = false; uint64_t frames = 0, segs = 0, bytes = 0, ids = 0; const uint32_t ip = sim::ip(10, 0, 0, 1);
	std::shared_ptr<SessionInfo> s; MessageRouter::SPtr mr; std::unique_ptr<ConnectionManager> cm; std::unique_ptr<DiscoveryManager> dm; std::unique_ptr<eipScanner::vendor::ra::powerFlex525::DPIFaultManager> fm;
	struct Live { IOConnection::WPtr w; uint32_t id; std::shared_ptr<unsigned> got; std::shared_ptr<Bytes> last; bool clean; }; std::vector<Live> conns; std::vector<std::string> reported; uint32_t lastT2O = 0; bool yaskawa = false;

	struct Peer : sim::TcpPeer { Body* o; Bytes in; explicit Peer(Body* b) : o(b) {}
		void onData(int fd, const Bytes& d) override { in.insert(in.end(), d.begin(), d.end());
			while (in.size() >= 24) { size_t len = 24 + in[2] + 256u * in[3]; if (in.size() < len) break; Bytes one(in.begin(), in.begin() + long(len)); in.erase(in.begin(), in.begin() + long(len)); o->answer(fd, one); } } };

	Body(Case& cc, const std::vector<Op>& p, bool yaskawa) : c(cc), prog(p), n(sc.n) {
		mr = std::make_shared<MessageRouter>(); this->yaskawa = yaskawa;
		cm = std::make_unique<ConnectionManager>(); dm = std::make_unique<DiscoveryManager>("10.0.0.255", 44818, milliseconds(40));
		fm = std::make_unique<eipScanner::vendor::ra::powerFlex525::DPIFaultManager>(true, false, true);
		fm->setNewFaultListener([this](const vendor::ra::powerFlex525::DPIFaultParameter& f) { auto& d = f.getFullInformation(); std::ostringstream o; o << d.faultDetails.faultNumber << "/" << d.faultDetails.faultCode << "/" << d.faultDetails.busVoltage << "/" << d.faultDetails.current << "/" << d.faultDetails.frequency << "/" << d.faultDescription.faultText; reported.push_back(o.str()); if (reported.size() > 1000) abortCase("faults are reported without end"); });
		n.onConnect = [this](uint32_t, uint16_t) { sim::ConnectPlan k; if (!calm && op && op->connectFails) { k.kind = op->a % 3 == 0 ? sim::ConnectPlan::SILENT : op->a % 3 == 1 ? sim::ConnectPlan::REFUSE_LATER : sim::ConnectPlan::ACCEPT_LATER; k.delayUs = op->b * 1000; k.err = ECONNREFUSED; } return k; };
		n.onAccepted = [this](int) { return std::make_shared<Peer>(this); };
		n.onSend = [this](const sim::Sent& d) { if (d.port == 44818) discovered(d.fd); }; }

	// ---- the well-behaved device
	wire::Reply good(const wire::Request& q) {
		wire::Reply r; r.service = uint8_t(q.service | 0x80); unsigned cls = q.path.id[0], in = q.path.n > 1 ? q.path.id[1] : 0, at = q.path.n > 2 ? q.path.id[2] : 0; wire::R d(q.data);
		if (cls == 1 && q.service == 1) r.data = wire::W().u16(0x1234).u16(12).u16(77).u8(3).u8(4).u16(0x30).u32(0xCAFE0001).shortStr("pump drive").b;
		else if (cls == 0x64) r.data = q.data;
		else if (cls == 0x0F && in == 20) {
			if (q.service == 1) r.data = wire::W().u16(500).u8(4).u32(0).u16(4 | 16).u8(0xC7).u8(2).shortStr("speed").shortStr("Hz").shortStr("help").u16(1).u16(60000).u16(300).u16(2).u16(1).u16(1).u16(0).zeros(8).u8(1).b;
			else switch (at) { case 1: r.data = wire::W().u16(501).b; break; case 6: r.data = {2}; break; case 13: r.data = wire::W().u16(2).b; break; case 16: r.data = wire::W().u16(0).b; break; default: r.data = wire::W().u16(1).b; } }
		else if (cls == 0x0F) { unsigned pos = in >= 7 && in <= 9 ? in - 6 : in >= 604 && in <= 610 ? in - 600 : 0; r.data = wire::W().u16(pos ? (pos == 1 ? 4 : pos == 2 ? 13 : pos == 3 ? 73 : 0) : in).b; }
		else if (cls == 0x37) {
			if (q.service == 0x0E) r.data = {2};
			else if (q.service == 0x4B) r.data = wire::W().u32(25).u8(10).b;
			else { unsigned num = q.data.empty() ? 0 : q.data[0]; r.data = wire::W().u8(num).u8(num == 0 ? 0 : num == 1 ? 1 : 2).raw(Bytes(num == 2 ? 5 : 10, uint8_t('a' + num))).b; if (num == 2) r.data.insert(r.data.end(), 2, 0); } }
		else if (cls == 6 && (q.service == 0x54 || q.service == 0x5B)) { lastT2O = uint32_t(0x7000 + ++ids); r.data = wire::W().u32(0x5000 + ids).u32(lastT2O).u16(5).u16(1).u32(2).u32(10000).u32(10000).u8(0).u8(0).b; r.items.push_back({0x8000, wire::sockaddr(0, 3000)}); }
		return r; }
	// ---- the answer, damaged on the way out
	void answer(int fd, const Bytes& frame) {
		wire::Encaps e; if (!wire::parse(frame, e)) c.fail("malformed frame sent: " + hex(frame)); ++frames;
		if (e.cmd == 0x66) return;
		std::vector<const Mut*> act; if (!calm && op) { for (auto& m : op->muts) if (m.at == ex || (m.on && ex > m.at)) act.push_back(&m); ++ex; } if (!act.empty()) { ++hits; stale = true; }
		auto each = [&](unsigned layer, auto&& f) { for (auto* m : act) if (m->layer == layer) f(*m); };
		Bytes payload; uint16_t cmd = e.cmd;
		if (cmd == 0x65) payload = wire::W().u16(1).u16(0).b;
		else {
			wire::R r(e.data); r.u32(); r.u16(); Bytes rest = r.rest(); std::vector<wire::Item> it; wire::Request q; if (cmd != 0x6F || !wire::parseItems(rest, it) || it.size() < 2 || !wire::parseRequest(it[1].data, q)) c.fail("malformed request sent: " + hex(frame));
			wire::Reply rep = good(q); each(DATA, [&](const Mut& m) { edit(rep.data, m); });
			each(STATUS, [&](const Mut& m) { rep.status = uint8_t(m.a); if (m.kind & 1) for (unsigned i = 0; i < m.b; ++i) rep.ext.push_back(uint16_t(m.a * 257 + i)); });
			Bytes rb = wire::packReply(rep); each(REPLY, [&](const Mut& m) { edit(rb, m); });
			std::vector<wire::Item> items{{0, {}}, {0xB2, rb}}; items.insert(items.end(), rep.items.begin(), rep.items.end());
			each(ITEMS, [&](const Mut& m) { if (items.empty()) items.push_back({0, {}}); switch (m.kind % 7) { case 0: items.resize(m.a % (items.size() + 1)); break; case 1: std::swap(items[0], items[m.a % items.size()]); break; case 2: items.push_back({uint16_t(m.b & 1 ? 0x8000 : 0x8001), m.junk}); break; case 3: items[m.a % items.size()].type = uint16_t(m.b); break; case 4: items.insert(items.begin() + long(m.a % (items.size() + 1)), wire::Item{uint16_t(m.b), m.junk}); break; case 5: if (!items.empty()) items[m.a % items.size()].data = m.junk; break; default: for (unsigned i = 0; i < m.a; ++i) items.push_back({uint16_t(m.b), {}}); } if (items.empty() && m.kind % 7 != 0) items.push_back({0, {}}); });
			payload = wire::rrPayload(items); }
		each(PAYLOAD, [&](const Mut& m) { edit(payload, m); });
		Bytes out = wire::encaps(cmd, HANDLE, 0, payload);
		each(HEADER, [&](const Mut& m) { switch (m.kind % 4) { case 0: out[2 + (m.a & 1)] = uint8_t(m.b); break; case 1: out[m.a % 24] = uint8_t(m.b); break; case 2: out[8] = uint8_t(m.b); out[9] = uint8_t(m.a & 3); break; default: { Mut h = m; h.kind /= 4; edit(out, h); } } });
		unsigned how = 99; const Mut* sm = nullptr; each(STREAM, [&](const Mut& m) { how = m.kind % 10; sm = &m; });
		auto send = [&](uint64_t d, const Bytes& b) { ++segs; bytes += b.size(); n.tcpSend(fd, d, b); };
		auto end = [&](sim::Seg::Kind k) { ++segs; n.seg(fd, 0, {}, k, ECONNRESET); };
		switch (how) {
		case 0: return; // silence
		case 1: out.resize(sm->a % (out.size() + 1)); send(0, out); end(sim::Seg::FIN); return;
		case 2: out.resize(sm->a % (out.size() + 1)); send(0, out); end(sim::Seg::RST); return;
		case 3: { size_t step = std::max<size_t>(1, out.size() / (1 + sm->b % 12)); for (size_t p = 0; p < out.size(); p += step) send(sm->a * 1000 * (p ? 1 + p / step : 1), Bytes(out.begin() + long(p), out.begin() + long(std::min(out.size(), p + step)))); return; } // drip, up to far beyond the timeout
		case 4: send(0, out); send(0, out); return; // answered twice
		case 5: send(0, sm->junk); send(0, out); return;
		case 6: send(0, out); send(0, sm->junk); return;
		case 7: send(T + sm->a * 500, out); return; // late
		case 8: end(sim::Seg::FIN); return;
		case 9: out.resize(sm->a % (out.size() + 1)); send(0, out); return; // cut, then silence
		default: send(0, out); } }
	static Bytes listed(unsigned i) { Bytes item = wire::W().u16(1).u16be(2).u16be(44818).u32be(sim::ip(10, 0, 0, uint8_t(10 + i))).raw(Bytes(8)).u16(1).u16(2).u16(100 + i).u8(1).u8(2).u16(0).u32(9).shortStr("device").u8(3).b; return wire::encaps(0x63, 0, 0, wire::packItems({{0x0C, item}})); }
	void discovered(int fd) { // good answers with damaged ones between them
		for (unsigned i = 0; i < 3; ++i) { sim::Datagram g; g.srcIp = sim::ip(10, 0, 0, uint8_t(10 + i)); g.srcPort = 44818;
			if (!calm && op) for (auto& m : op->muts) if (m.at % 3 == i) { ++hits; g.data = listed(7); unsigned k = m.layer; Mut x = m; if (k == HEADER) { g.data[2 + (m.a & 1)] = uint8_t(m.b); } else if (k == PAYLOAD) { Bytes p(g.data.begin() + 24, g.data.end()); edit(p, x); g.data = wire::encaps(0x63, 0, 0, p); } else if (k == STREAM) { g.err = m.a % 2 ? ECONNREFUSED : ENETDOWN; } else if (k == ITEMS) { g.data = wire::encaps(0x63, 0, 0, wire::packItems(std::vector<wire::Item>(m.a % 5, {uint16_t(m.b % 16), m.junk}))); } else edit(g.data, x); bytes += g.data.size(); ++segs; n.deliverFd(fd, g); g.err = 0; }
			g.data = listed(i); bytes += g.data.size(); ++segs; n.deliverFd(fd, g); } }

	template <class F> bool attempt(const char* what, F&& f, bool must) {
		std::string t; Outcome o = guarded(c, what, f, &t);
		if (o != Outcome::OK) trace << " !" << t; if (must && o != Outcome::OK) c.fail(std::string(what) + " fails though the device answers properly: " + t);
		return o == Outcome::OK; }
	void session(bool must) { if (s) return; stale = false; attempt("opening a session", [&] { s = std::make_shared<SessionInfo>("10.0.0.1", 44818, milliseconds(T / 1000)); }, must); }

	void perform(const Op& o, bool must) {
		trace << "\n" << kindName[o.kind] << ":";
		if (o.kind != TRAFFIC && o.kind != DISCOVER) { session(must); if (!s) return; }
		bool ok = true;
		switch (o.kind) {
		case REQUEST: ok = attempt("a request", [&] { auto r = yaskawa ? Yaskawa_MessageRouter().sendRequest(s, 0x0E, cip::Yaskawa_EPath(0x64, 1, 7), o.data) : mr->sendRequest(s, 0x0E, cip::EPath(0x64, 1, 7), o.data); trace << r.getGeneralStatusCode() << hex(r.getData(), 4000); for (auto x : r.getAdditionalStatus()) trace << "," << x; for (auto& i : r.getAdditionalPacketItems()) trace << ";" << int(i.getTypeId()) << hex(i.getData(), 4000); if (must) expectEq(c, r.getData(), o.data, "echoed data"); }, must); break;
		case IDENTITY: ok = attempt("an identity read-out", [&] { IdentityObject i(1, s, mr); trace << i.getVendorId() << "," << i.getDeviceType() << "," << i.getProductCode() << "," << i.getRevision().toString() << "," << i.getStatus() << "," << i.getSerialNumber() << "," << i.getProductName(); if (must) EXPECT(c, i.getSerialNumber() == 0xCAFE0001 && i.getProductName() == "pump drive", "wrong identity"); }, must); break;
		case PARAMETER: ok = attempt("a parameter read-out", [&] { ParameterObject p(20, true, s, mr); auto show = [&] { trace << p.getActualValue<uint16_t>() << "," << p.getActualValue<uint64_t>() << "," << p.getActualValue<float>() << "," << p.getMinValue<int8_t>() << "," << p.getMaxValue<uint32_t>() << "," << p.getDefaultValue<double>() << "," << p.getEngValue<uint16_t>() << "," << p.getEngMaxValue<int32_t>() << "," << p.isScalable() << p.isReadOnly() << int(p.getType()) << p.getName() << p.getUnits() << p.getHelp() << int(p.getPrecision()); }; show(); p.updateValue(s); show(); if (must) EXPECT(c, p.getActualValue<uint16_t>() == 501 && p.getName() == "speed" && p.getMaxValue<uint16_t>() == 60000, "wrong parameter"); }, must); break;
		case UPLOAD: { auto calls = std::make_shared<unsigned>(0); auto got = std::make_shared<Bytes>(); auto st = std::make_shared<int>(-1);
			ok = attempt("a file upload", [&] { FileObject f(1, s, mr); f.beginUpload(s, [=](cip::GeneralStatusCodes code, const Bytes& b) { ++*calls; *got = b; *st = int(code); }); unsigned steps = 0; while (steps < 300 && f.handleTransfers(s)) ++steps; trace << steps << "," << *calls << "," << *st << hex(*got, 4000); }, must);
			EXPECT(c, *calls <= 1, "the upload handler was called " << *calls << " times"); if (*st == 0) EXPECT(c, got->size() <= bytes, "the uploaded file is larger than all that was received");
			if (must) EXPECT(c, *calls == 1 && *st == 0 && *got == wire::W().raw(Bytes(10, 'a')).raw(Bytes(10, 'b')).raw(Bytes(5, 'c')).b, "wrong file uploaded"); break; }
		case FAULTS: reported.clear(); ok = attempt("a fault read-out", [&] { fm->handleFaultParameters(s, mr); }, must); for (auto& r : reported) trace << " " << r; EXPECT(c, reported.size() <= 10, "more faults than the drive can hold"); if (must) EXPECT(c, reported.size() == 3, reported.size() << " faults reported, the drive has 3"); break;
		case OPEN: { cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, 1}; p.o2tRPI = p.t2oRPI = 10000; p.transportTypeTrigger = 1; p.t2oNetworkConnectionParams = p.o2tNetworkConnectionParams = o.a & 1 ? 0x42000008 : 0x4208; p.connectionTimeoutMultiplier = 3; IOConnection::WPtr w; lastT2O = 0;
			ok = attempt("a forward open", [&] { w = cm->forwardOpen(s, p, o.a & 1); }, must); if (must) EXPECT(c, !w.expired(), "no connection though the device accepted it");
			if (auto k = w.lock()) { Live l{w, lastT2O, std::make_shared<unsigned>(0), std::make_shared<Bytes>(), !stale && !oddOpen}; oddOpen |= !l.clean; auto got = l.got; auto last = l.last; k->setReceiveDataListener([got, last](uint32_t, uint16_t, const Bytes& b) { ++*got; *last = b; }); k->setDataToSend(Bytes(8)); conns.push_back(l); trace << "opened"; }
			std::set<IOConnection*> alive; for (auto& l : conns) if (auto k = l.w.lock()) alive.insert(k.get()); EXPECT(c, cm->hasOpenConnections() == !alive.empty(), "connections are reported open: " << cm->hasOpenConnections() << ", connections handed out and alive: " << alive.size()); break; }
		case CLOSE: if (conns.empty()) break; { Live l = conns[o.a % conns.size()]; conns.erase(conns.begin() + long(o.a % conns.size())); ok = attempt("a forward close", [&] { cm->forwardClose(s, l.w); }, must); EXPECT(c, l.w.expired(), "a connection survives its close"); } break;
		case TRAFFIC: { // damaged datagrams, then one for every connection
			for (auto& m : o.muts) { if (calm) break; ++hits; uint32_t id = conns.empty() ? 1 : conns[m.at % conns.size()].id; std::vector<wire::Item> it{{0x8002, wire::W().u32(id).u32(m.at).b}, {0xB1, wire::W().u16(m.b).raw(Bytes(8, 9)).b}}; Bytes d;
				switch (m.layer) { case DATA: edit(it[1].data, m); break; case STATUS: edit(it[0].data, m); break; case ITEMS: if (m.kind & 1) it.resize(m.a % 3); else it.insert(it.begin() + long(m.a % 3), {uint16_t(m.b), m.junk}); break; default:; }
				d = wire::packItems(it); if (m.layer == REPLY || m.layer == PAYLOAD || m.layer == HEADER) edit(d, m); sim::Datagram g; g.data = d; g.srcIp = ip; g.srcPort = 2222; if (m.layer == STREAM) { g.err = m.a % 2 ? ECONNREFUSED : ENETDOWN; } bytes += d.size(); ++segs; n.deliver(2222, g); }
			unsigned k = 0; for (auto& l : conns) { sim::Datagram g; g.srcIp = ip; g.srcPort = 2222; g.data = wire::packItems({{0x8002, wire::W().u32(l.id).u32(1000).b}, {0xB1, wire::W().u16(7).raw(Bytes(8, uint8_t(0x40 + k++))).b}}); bytes += g.data.size(); ++segs; n.deliver(2222, g); }
			std::vector<bool> alive; for (auto& l : conns) alive.push_back(!l.w.expired());
			for (unsigned r = 0; r < 2 + o.muts.size() + conns.size(); ++r) attempt("handling connections", [&] { cm->handleConnections(milliseconds(0)); }, must);
			for (size_t i = 0; i < conns.size(); ++i) { auto w = conns[i].w.lock(); trace << " " << *conns[i].got << hex(*conns[i].last); if (w && alive[i] && conns[i].clean) EXPECT(c, *conns[i].last == Bytes(8, uint8_t(0x40 + i)), "good data after damaged datagrams did not arrive: last data " << hex(*conns[i].last)); } break; }
		case DISCOVER: { std::vector<unsigned> codes; ok = attempt("a discovery", [&] { auto l = dm->discover(); for (auto& d : l) { codes.push_back(d.identityObject.getProductCode()); trace << " " << d.identityObject.getProductCode() << "," << d.identityObject.getVendorId() << "," << d.identityObject.getSerialNumber() << "," << d.identityObject.getProductName() << "," << d.socketAddress.toString(); } }, must);
			if (ok) { size_t at = 0; bool fault = false; for (auto& m : o.muts) fault |= m.layer == STREAM && !calm; for (unsigned i = 0; i < 3 && !fault; ++i) { while (at < codes.size() && codes[at] != 100 + i) ++at; EXPECT(c, at < codes.size(), "a device that answered properly is missing from the discovery: " << 100 + i); ++at; } } break; }
		default:; }
		trace << (ok ? " ok" : " error");
		if (!ok && o.kind != TRAFFIC && o.kind != DISCOVER && (o.b & 3)) s.reset(); // sometimes the broken session is kept in use
	}
	void measured(const Op& o, bool must) {
		op = &o; ex = 0; uint64_t t0 = n.nowUs, f0 = frames, s0 = segs, b0 = bytes; int64_t m0 = liveBytes; peakBytes = liveBytes;
		perform(o, must); op = nullptr;
		uint64_t spent = n.nowUs - t0, limit = (frames - f0 + segs - s0 + 3) * (T + 2000);
		EXPECT(c, spent <= limit, kindName[o.kind] << " took " << spent << " us for " << frames - f0 << " requests and " << segs - s0 << " received pieces, with a receive timeout of " << T << " us");
		int64_t grown = peakBytes - m0, bound = 400000 + 64 * int64_t(bytes - b0) + 4000 * int64_t(frames - f0 + segs - s0);
		EXPECT(c, grown <= bound, kindName[o.kind] << " needed " << grown << " bytes of memory for " << bytes - b0 << " received bytes");
		trace << " t" << spent;
		size_t tcp = 0; for (auto& k : n.socks) tcp += k.second.open && k.second.type != SOCK_DGRAM; EXPECT(c, tcp == (s ? 1u : 0u), tcp << " TCP sockets are open for " << (s ? 1 : 0) << " sessions after " << kindName[o.kind]);
	}
	std::string all() {
		for (auto& o : prog) { measured(o, false); n.advance(1000 * (o.b % 20)); }
		// the peer recovers: everything works on the same objects with a new session
		calm = true; s.reset(); std::set<unsigned> kinds; for (auto& o : prog) kinds.insert(o.kind); if (kinds.count(CLOSE) || kinds.count(TRAFFIC)) kinds.insert(OPEN); if (kinds.count(OPEN)) { kinds.insert(TRAFFIC); kinds.insert(CLOSE); } kinds.insert(REQUEST);
		conns.clear(); n.advance(40000000); attempt("handling connections", [&] { for (int i = 0; i < 20; ++i) cm->handleConnections(milliseconds(0)); }, true); // what was opened times out (unless the device granted an enormous interval)
		for (unsigned k : {unsigned(IDENTITY), unsigned(PARAMETER), unsigned(UPLOAD), unsigned(FAULTS), unsigned(DISCOVER), unsigned(REQUEST)}) if (kinds.count(k)) { Op o; o.kind = k; o.data = {1, 2, 3}; measured(o, true); }
		if (kinds.count(OPEN)) { ids += 100000; Op o; o.kind = OPEN; // other ids than any damaged answer has shown, most likely
			calmOpen(o); }
		cm.reset(); s.reset(); for (auto& k : n.socks) EXPECT(c, !k.second.open, "a socket is left open"); return trace.str(); }
	void calmOpen(const Op&) {
		session(true); cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, 1}; p.o2tRPI = p.t2oRPI = 10000; p.transportTypeTrigger = 1; p.t2oNetworkConnectionParams = p.o2tNetworkConnectionParams = 0x4208; p.connectionTimeoutMultiplier = 3; IOConnection::WPtr w;
		attempt("a forward open", [&] { w = cm->forwardOpen(s, p); }, true); auto k = w.lock(); EXPECT(c, !!k, "no connection though the device accepted it"); Bytes last; k->setReceiveDataListener([&](uint32_t, uint16_t, const Bytes& b) { last = b; }); k->setDataToSend(Bytes(8, 5));
		sim::Datagram g; g.srcIp = ip; g.srcPort = 2222; g.data = wire::packItems({{0x8002, wire::W().u32(lastT2O).u32(1).b}, {0xB1, wire::W().u16(7).raw(Bytes(8, 3)).b}}); n.deliver(2222, g); size_t sent = n.sent.size(); n.advance(11000);
		attempt("handling connections", [&] { cm->handleConnections(milliseconds(0)); }, true); EXPECT(c, last == Bytes(8, 3), "cyclic data of a new connection did not arrive"); bool out = false; for (size_t i = sent; i < n.sent.size(); ++i) out |= n.sent[i].port == 3000; EXPECT(c, out, "a new connection produced nothing"); k.reset();
		attempt("a forward close", [&] { cm->forwardClose(s, w); }, true); EXPECT(c, w.expired(), "a connection survives its close"); }
};

std::vector<Op> generate(Case& c, bool& yaskawa) {
	yaskawa = c.oneIn(6); std::vector<Op> prog(1 + c.below(5)); bool any = false;
	for (auto& o : prog) {
		o.kind = unsigned(c.below(KINDS)); o.a = unsigned(c.below(64)); o.b = unsigned(c.below(64)); o.data = c.bytes(c.below(30)); o.connectFails = c.oneIn(12); size_t k = c.below(4); c.desc << " | " << kindName[o.kind] << (o.connectFails ? " connect!" : ""); c.label(kindName[o.kind]);
		for (size_t i = 0; i < k; ++i) { Mut m; unsigned deep = o.kind == FAULTS ? 16 : o.kind == PARAMETER ? 9 : o.kind == UPLOAD ? 7 : 3; m.at = unsigned(c.below(deep)); m.on = c.oneIn(4); m.layer = unsigned(c.below(LAYERS)); m.kind = unsigned(c.below(36)); m.a = unsigned(c.coin() ? c.below(8) : c.below(300)); m.b = unsigned(c.below(c.coin() ? 8 : 256)); m.junk = c.bytes(c.size(300, {0, 1, 2, 16})); if (c.oneIn(60)) m.junk.resize(20000, 0x55); o.muts.push_back(m); any = true; c.desc << " " << layerName[m.layer] << "." << m.kind << (m.on ? "+" : "") << "@" << m.at << "(" << m.a << "," << m.b << "," << m.junk.size() << ")"; c.label(layerName[m.layer]); } }
	(void)any; return prog;
}
}
