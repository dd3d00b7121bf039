// C26: library objects are independent of each other.
#include "engine.h"
#include "wire.h"
#include "sim.h"
#include "io.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "DiscoveryManager.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include <cerrno>
#include <map>
#include <memory>
#include <set>
using namespace pbt;
using namespace eipScanner;
using std::chrono::milliseconds;

namespace {
enum Kind { REQ, IDENT, PARAM, PVALUE, UPLOAD, STEP, FAULTS, OPEN, CLOSE, HANDLE, DISCOVER, RESET, KINDS };
const char* kindName[] = {"request", "identity", "parameter", "value", "upload", "step", "faults", "open", "close", "handle", "discover", "reset"};
struct Op { unsigned kind = 0, how = 0, a = 0, b = 0, gap = 0; Bytes data; };
uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
bool same; // both sides talk to one device, at different ports
bool plain; // no nested activity (another side is at work)

struct Side {
	sim::Net& n; unsigned idx; const std::vector<Op>& prog; uint64_t seed; std::ostringstream trace; const Op* op = nullptr; uint64_t opNo = 0; unsigned ex = 0, ids = 0; bool dead = false;
	MessageRouter::SPtr mr; std::shared_ptr<SessionInfo> s; std::unique_ptr<ConnectionManager> cm; std::unique_ptr<DiscoveryManager> dm; std::unique_ptr<vendor::ra::powerFlex525::DPIFaultManager> fm;
	std::vector<std::unique_ptr<ParameterObject>> params; std::vector<std::unique_ptr<FileObject>> files; struct Live { IOConnection::WPtr w; uint32_t t2o; }; std::vector<Live> conns; std::map<unsigned, unsigned> serials; std::set<int> fds; size_t sentSeen = 0;

	uint64_t v(uint64_t k) const { return mix(mix(seed + opNo * 1000003) + k); }
	std::string name(uint64_t k, unsigned mx) const { std::string t(v(k) % (mx + 1), ' '); for (size_t i = 0; i < t.size(); ++i) t[i] = char('a' + v(k * 1000 + i) % 26); return t; }
	uint32_t host() const { return same ? sim::ip(10, 0, 9, 1) : sim::ip(10, 0, uint8_t(idx), 1); }
	uint16_t port() const { return uint16_t(same ? 44818 + idx : 44818); }
	bool mine(uint32_t ip, uint16_t p) const { return ip == sim::ip(10, 0, uint8_t(idx), 255) || (ip == host() && (!same || p == 3000 + idx)); }
	Side(sim::Net& net, unsigned i, const std::vector<Op>& p, uint64_t sd) : n(net), idx(i), prog(p), seed(sd) {
		mr = std::make_shared<MessageRouter>(); cm = std::make_unique<ConnectionManager>(); dm = std::make_unique<DiscoveryManager>("10.0." + std::to_string(idx) + ".255", 44818, milliseconds(20));
		fm = std::make_unique<vendor::ra::powerFlex525::DPIFaultManager>(true, false, seed & 1);
		fm->setNewFaultListener([this](const vendor::ra::powerFlex525::DPIFaultParameter& f) { auto& d = f.getFullInformation(); trace << " fault " << d.faultDetails.faultNumber << "/" << d.faultDetails.faultCode << "/" << d.faultDetails.busVoltage << "/" << d.faultDetails.current << "/" << d.faultDetails.frequency << "/" << d.faultDescription.faultText; }); }

	struct Peer : sim::TcpPeer { Side* o; Bytes in; explicit Peer(Side* b) : o(b) {}
		void onData(int fd, const Bytes& d) override { if (o->dead) return; in.insert(in.end(), d.begin(), d.end());
			while (in.size() >= 24) { size_t len = 24 + in[2] + 256u * in[3]; if (in.size() < len) break; Bytes one(in.begin(), in.begin() + long(len)); in.erase(in.begin(), in.begin() + long(len)); o->answer(fd, one); } } };
	wire::Reply reply(const wire::Request& q) {
		wire::Reply r; r.service = uint8_t(q.service | 0x80); unsigned cls = q.path.id[0], in = q.path.n > 1 ? q.path.id[1] : 0, at = q.path.n > 2 ? q.path.id[2] : 0; uint64_t e = ex * 64;
		if (cls == 1) r.data = wire::W().u16(v(e)).u16(v(e + 1)).u16(v(e + 2)).u8(v(e + 3)).u8(v(e + 4)).u16(v(e + 5)).u32(v(e + 6)).shortStr(name(e + 7, 40)).b;
		else if (cls == 0x64) { r.data = q.data; r.data.push_back(uint8_t(v(e))); for (unsigned i = 0; i < v(e + 1) % 3; ++i) r.ext.push_back(uint16_t(v(e + 2 + i))); }
		else if (cls == 0x0F && in < 700 && in >= 600 + 0 && at == 1 && op && op->kind == FAULTS) r.data = wire::W().u16(in >= 604 && in <= 610 ? 0 : v(in)).b;
		else if (cls == 0x0F && op && op->kind == FAULTS) { static const unsigned codes[] = {0, 3, 4, 5, 6, 13, 33, 73, 100}; r.data = wire::W().u16(codes[v(in) % 9]).b; }
		else if (cls == 0x0F) {
			unsigned size = 1u << (in & 3); auto raw = [&](uint64_t k) { Bytes b; for (unsigned i = 0; i < size; ++i) b.push_back(uint8_t(v(k) >> (8 * i))); return b; };
			if (q.service == 1) r.data = wire::W().raw(raw(e)).u8(2).u16(9).u16(v(e + 1) & 0x14).u8(v(e + 2)).u8(size).shortStr(name(e + 3, 30)).shortStr(name(e + 4, 8)).shortStr(name(e + 5, 60)).raw(raw(e + 6)).raw(raw(e + 7)).raw(raw(e + 8)).zeros(16).u8(v(e + 9) % 5).b;
			else if (at == 6) r.data = {uint8_t(size)}; else if (at >= 13) r.data = wire::W().u16(1 + v(e) % 1000).b; else r.data = raw(e); }
		else if (cls == 0x37) { unsigned total = unsigned(mix(seed + in) % 60), chunk = 10;
			if (q.service == 0x0E) r.data = {2}; else if (q.service == 0x4B) r.data = wire::W().u32(total).u8(chunk).b;
			else { unsigned num = q.data.empty() ? 0 : q.data[0], from = std::min(total, num * chunk), to = std::min(total, from + chunk); bool last = from + chunk >= total; Bytes d; for (unsigned i = from; i < to; ++i) d.push_back(uint8_t(mix(seed + in * 1000 + i))); r.data = wire::W().u8(num).u8(last ? (num ? 2 : 4) : num ? 1 : 0).raw(d).b; if (last) r.data.insert(r.data.end(), 2, 0); } }
		else if (cls == 6 && (q.service == 0x54 || q.service == 0x5B)) { ++ids; r.data = wire::W().u32(0x5000 + ids).u32(0x7000 + ids).u16(5).u16(1).u32(2).u32(10000 + v(e) % 5000).u32(10000).u8(0).u8(0).b; if ((v(e + 1) & 1) || same) r.items.push_back({0x8000, wire::sockaddr(0, uint16_t(3000 + idx))}); }
		return r; }
	void answer(int fd, const Bytes& frame) {
		wire::Encaps e; if (!wire::parse(frame, e)) abortCase("malformed frame sent: " + hex(frame));
		if (e.cmd == 0x66) { trace << " [unregister]"; return; }
		uint32_t handle = uint32_t(mix(seed) | 1); Bytes payload; uint16_t cmd = e.cmd;
		if (cmd == 0x65) { payload = wire::W().u16(1).u16(0).b; trace << " [register]"; }
		else {
			++ex; wire::R r(e.data); r.u32(); r.u16(); Bytes rest = r.rest(); std::vector<wire::Item> it; wire::Request q; if (cmd != 0x6F || !wire::parseItems(rest, it) || it.size() < 2 || !wire::parseRequest(it[1].data, q)) abortCase("malformed request sent: " + hex(frame));
			trace << " [" << int(q.service) << wire::show(q.path); Bytes d = q.data;
			auto number = [&](unsigned s) { return serials.emplace(s, serials.size()).first->second; };
			if (q.path.id[0] == 6 && (q.service == 0x54 || q.service == 0x5B) && d.size() > 14) { trace << " serial " << number(d[10] + 256u * d[11]); for (unsigned i = 2; i < 12; ++i) d[i] = 0; }
			if (q.path.id[0] == 6 && q.service == 0x4E && d.size() > 4) { trace << " serial"; trace << (d[2] + 256u * d[3]); }
			trace << hex(d, 4000) << " t" << n.nowUs << "]";
			wire::Reply rep = reply(q); bool hit = op && (op->a % 4) + 1 == ex;
			if (hit && op->how == 1) rep.status = uint8_t(1 + op->b); if (hit && op->how == 2) rep.data.resize(op->b % (rep.data.size() + 1));
			payload = wire::rrReply(rep);
			if (hit && op->how == 4) return; if (hit && op->how == 5) { n.seg(fd, 0, {}, sim::Seg::FIN); return; } }
		Bytes out = wire::encaps(cmd, handle, 0, payload);
		if (op && op->how == 3) { size_t k = op->b % out.size(); n.tcpSend(fd, 500 * op->a, Bytes(out.begin(), out.begin() + long(k))); n.tcpSend(fd, 1000 * op->a, Bytes(out.begin() + long(k), out.end())); }
		else n.tcpSend(fd, 0, out); }
	void discovered(int fd) { for (unsigned i = 0; i < v(77) % 4; ++i) { Bytes item = wire::W().u16(1).u16be(2).u16be(44818).u32be(host() + i).raw(Bytes(8)).u16(v(i)).u16(2).u16(v(i + 10)).u8(1).u8(2).u16(0).u32(v(i + 20)).shortStr(name(i, 20)).u8(3).b; sim::Datagram g; g.data = wire::encaps(0x63, 0, 0, wire::packItems({{0x0C, item}})); if (op && op->how == 2 && i == 1) g.data.resize(op->b % g.data.size()); g.srcIp = host() + i; g.srcPort = 44818; n.deliverFd(fd, g); } }

	template <class F> void attempt(F&& f) { try { f(); trace << " ok"; } catch (const std::runtime_error& e) { trace << " !" << e.what(); } catch (const std::exception& e) { abortCase(std::string("exception not derived from std::runtime_error: ") + e.what()); } }
	void sentNow() { for (; sentSeen < n.sent.size(); ++sentSeen) { auto& m = n.sent[sentSeen]; if (!mine(m.ip, m.port)) continue; trace << " <" << m.at << " port " << m.port << " " << hex(m.data, 200) << ">"; } }
	void show(const ParameterObject& p) { trace << p.getActualValue<uint16_t>() << "," << p.getMinValue<int32_t>() << "," << p.getMaxValue<uint32_t>() << "," << p.getDefaultValue<uint8_t>() << "," << p.getEngValue<uint16_t>() << "," << p.isScalable() << p.isReadOnly() << int(p.getType()) << "," << p.getName() << "," << p.getUnits() << "," << p.getHelp() << "," << p.getScalingMultiplier() << "," << p.getScalingDivisor() << "," << p.getScalingOffset() << "," << int(p.getPrecision()); }
	void apply(size_t i) {
		const Op& o = prog[i]; op = &o; opNo = i + 1; ex = 0; trace << "\n#" << i << " " << kindName[o.kind] << "@" << n.nowUs << ":";
		if (o.kind == RESET) s.reset();
		if (!s && o.kind != HANDLE && o.kind != DISCOVER) attempt([&] { s = std::make_shared<SessionInfo>(sim::ipText(host()), port(), milliseconds(30)); trace << " handle " << s->getSessionHandle(); });
		if (s || o.kind == HANDLE || o.kind == DISCOVER) attempt([&] {
			switch (o.kind) {
			case REQ: { auto r = o.a & 8 ? Yaskawa_MessageRouter().sendRequest(s, cip::CipUsint(o.b & 0x7f), cip::Yaskawa_EPath(0x64, uint8_t(o.a)), o.data) : mr->sendRequest(s, cip::CipUsint(o.b & 0x7f), cip::EPath(0x64, uint16_t(o.a), 3), o.data); trace << int(r.getServiceCode()) << "," << r.getGeneralStatusCode() << hex(r.getData(), 4000); for (auto x : r.getAdditionalStatus()) trace << "," << x; break; }
			case IDENT: { IdentityObject x(1, s, mr); trace << x.getVendorId() << "," << x.getDeviceType() << "," << x.getProductCode() << "," << x.getRevision().toString() << "," << x.getStatus() << "," << x.getSerialNumber() << "," << x.getProductName(); break; }
			case PARAM: { auto p = std::make_unique<ParameterObject>(cip::CipUint(20 + o.a % 8), o.b & 1, s, mr); show(*p); params.push_back(std::move(p)); if (params.size() > 3) params.erase(params.begin()); break; }
			case PVALUE: if (!params.empty()) { auto& p = *params[o.b % params.size()]; if (o.a & 1) { p.setScalable(true); p.setScalingMultiplier(uint16_t(1 + o.b)); p.setName("n" + std::to_string(o.b)); p.setEngMaxValue<uint16_t>(p.actualToEngValue(o.b * 5)); } else p.updateValue(s); } for (auto& p : params) { trace << " |"; show(*p); } break;
			case UPLOAD: { auto f = std::make_unique<FileObject>(cip::CipUint(1 + o.a % 5), s, mr); unsigned no = unsigned(opNo); f->beginUpload(s, [this, no](cip::GeneralStatusCodes c, const Bytes& b) { trace << " file" << no << " " << c << hex(b, 4000); }); files.push_back(std::move(f)); if (files.size() > 3) files.erase(files.begin()); break; }
			case STEP: for (unsigned k = 0; k < 1 + o.a % 5; ++k) if (!files.empty()) trace << " " << files[(o.b + k) % files.size()]->handleTransfers(s); break;
			case FAULTS: fm->handleFaultParameters(s, mr); break;
			case OPEN: { cip::connectionManager::ConnectionParameters p; p.connectionPath = {0x20, 4, 0x24, uint8_t(o.a)}; p.originatorVendorId = uint16_t(o.b); p.o2tRPI = p.t2oRPI = 10000; p.transportTypeTrigger = uint8_t(o.b & 1); bool large = o.a & 1; p.t2oNetworkConnectionParams = p.o2tNetworkConnectionParams = large ? 0x42000000 | (1 + o.a % 8) : 0x4200 | (1 + o.a % 8); p.connectionTimeoutMultiplier = uint8_t(o.b % 4);
				auto w = cm->forwardOpen(s, p, large); for (auto& k : n.socks) if (k.second.open && k.second.bound && !taken(k.first)) fds.insert(k.first); trace << (w.expired() ? " refused" : " opened");
				if (auto k = w.lock()) { uint32_t id = 0x7000 + ids; unsigned no = ids; k->setReceiveDataListener([this, no](uint32_t h, uint16_t q, const Bytes& b) { trace << " rx" << no << ":" << h << "," << q << hex(b, 4000) << "@" << n.nowUs; }); k->setCloseListener([this, no] { trace << " closed" << no << "@" << n.nowUs; }); k->setDataToSend(Bytes(1 + o.a % 8, uint8_t(o.b))); if (o.b & 4) { auto count = std::make_shared<unsigned>(0); k->setSendDataListener([count](std::vector<uint8_t>& d) { if (!d.empty()) d[0] = uint8_t(++*count); }); } conns.push_back({w, id}); } break; }
			case CLOSE: if (!conns.empty()) { size_t k = o.b % conns.size(); auto w = conns[k].w; conns.erase(conns.begin() + long(k)); cm->forwardClose(s, w); trace << w.expired(); } break;
			case HANDLE: for (size_t k = 0; k < conns.size(); ++k) if (o.a >> k & 1) { sim::Datagram g; g.srcIp = host(); g.srcPort = 2222; g.data = wire::packItems({{0x8002, wire::W().u32(conns[k].t2o).u32(o.b).b}, {0xB1, wire::W().u16(o.b).raw(Bytes(o.b % 12, uint8_t(v(k)))).b}}); if (!fds.empty()) n.deliverFd(*fds.begin(), g); }
				for (unsigned k = 0; k < 1 + o.b % 3; ++k) cm->handleConnections(milliseconds(o.a % 4)); trace << cm->hasOpenConnections(); break;
			case DISCOVER: for (auto& d : dm->discover()) trace << " " << d.identityObject.getVendorId() << "," << d.identityObject.getProductCode() << "," << d.identityObject.getSerialNumber() << "," << d.identityObject.getProductName() << "," << d.socketAddress.toString(); break;
			default:; } });
		sentNow(); op = nullptr; }
	static std::vector<Side*> sides; static bool taken(int fd) { for (auto* x : sides) if (x->fds.count(fd)) return true; return false; }
	void finish() { files.clear(); params.clear(); cm.reset(); s.reset(); sentNow(); dead = true; }
};
std::vector<Side*> Side::sides;

// what happens at the log points of side 0
struct Points { std::function<void()> at; unsigned count = 0; };
Points* points = nullptr;
struct Appender : utils::LogAppenderIf { void print(utils::LogLevel, const std::string&) override { errno = 17; if (!points || plain) return; ++points->count; if (points->at) points->at(); } };

struct Setting { sim::Scope sc; std::vector<std::unique_ptr<Side>> side;
	Setting() { auto& n = sc.n;
		n.onConnect = [](uint32_t, uint16_t) { return sim::ConnectPlan{}; };
		n.onAccepted = [this](int fd) -> std::shared_ptr<sim::TcpPeer> { for (auto& x : side) if (x && sc.n.socks[fd].peerIp == x->host() && sc.n.socks[fd].peerPort == x->port()) return std::make_shared<Side::Peer>(x.get()); return nullptr; };
		n.onSend = [this](const sim::Sent& d) { for (auto& x : side) if (x && d.port == 44818 && d.ip == sim::ip(10, 0, uint8_t(x->idx), 255)) x->discovered(d.fd); }; }
	~Setting() { Side::sides.clear(); points = nullptr; for (auto& x : side) if (x) x->dead = true; }
	void add(unsigned i, const std::vector<Op>& p, uint64_t seed) { side.push_back(std::make_unique<Side>(sc.n, i, p, seed)); Side::sides.push_back(side.back().get()); } };

void run(Case& c) {
	utils::Logger::setAppender(std::make_unique<Appender>()); utils::Logger::setLogLevel(utils::LogLevel::TRACE); plain = false; points = nullptr;
	std::vector<Op> prog[2]; uint64_t seed[2] = {c.u64(), 0}; seed[1] = c.oneIn(3) ? seed[0] : c.u64(); bool inside = c.coin(); same = c.oneIn(4); if (same) { c.label("one device"); c.desc << " one device"; } unsigned common = c.coin() ? unsigned(c.below(KINDS)) : KINDS;
	for (unsigned i = 0; i < 2; ++i) { prog[i].resize(1 + c.below(8)); unsigned like = common < KINDS ? common : c.coin() ? unsigned(c.below(KINDS)) : KINDS; c.desc << (i ? " || B" : " A"); for (auto& o : prog[i]) { o.kind = like < KINDS && c.coin() ? like : unsigned(c.below(KINDS)); if ((o.kind == STEP || o.kind == UPLOAD) && like < KINDS) o.kind = c.oneIn(3) ? UPLOAD : STEP; if (o.kind == UPLOAD && !c.oneIn(3)) o.how = 0; else o.how = c.coin() ? 0 : unsigned(c.below(6)); o.a = unsigned(c.below(64)); o.b = unsigned(c.below(128)); o.gap = unsigned(c.below(inside ? 30 : 4)); o.data = c.bytes(c.below(20)); c.desc << " " << kindName[o.kind] << "." << o.how; c.label(kindName[o.kind]); } }
	std::string both[2], alone[2]; std::vector<uint64_t> startA, startB; std::map<unsigned, uint64_t> resume; uint64_t endB = 0, ends[2]; unsigned nested = 0;
	size_t nb = 0;
	{ // A and B together
		Setting t; t.add(0, prog[0], seed[0]); t.add(1, prog[1], seed[1]); Points pt; size_t left = prog[1].empty() ? 0 : prog[1][0].gap;
		auto runB = [&] { startB.push_back(t.sc.n.nowUs); plain = true; t.side[1]->apply(nb); plain = false; ++nb; left = nb < prog[1].size() ? prog[1][nb].gap : 0; };
		points = &pt; if (inside) pt.at = [&] { if (nb < prog[1].size() && left-- == 0) { unsigned at = pt.count; ++nested; runB(); resume[at] = t.sc.n.nowUs; } };
		for (size_t i = 0; i < prog[0].size(); ++i) { t.sc.n.advance(1000 * prog[0][i].b % 30000); if (!inside) while (nb < prog[1].size() && left-- == 0) runB(); startA.push_back(t.sc.n.nowUs); t.side[0]->apply(i); }
		points = nullptr; while (nb < prog[1].size()) runB();
		ends[0] = t.sc.n.nowUs; t.side[0]->finish(); ends[1] = t.sc.n.nowUs; t.side[1]->finish(); both[0] = t.side[0]->trace.str(); both[1] = t.side[1]->trace.str(); }
	{ // A alone, time passing where B was at work
		Setting t; t.add(0, prog[0], seed[0]); Points pt; points = &pt; pt.at = [&] { auto it = resume.find(pt.count); if (it != resume.end()) t.sc.n.advanceTo(std::max(it->second, t.sc.n.nowUs)); };
		for (size_t i = 0; i < prog[0].size(); ++i) { t.sc.n.advanceTo(startA[i]); t.side[0]->apply(i); } points = nullptr; t.sc.n.advanceTo(std::max(ends[0], t.sc.n.nowUs)); t.side[0]->finish(); alone[0] = t.side[0]->trace.str(); }
	{ Setting t; t.add(1, prog[1], seed[1]); for (size_t i = 0; i < prog[1].size(); ++i) { t.sc.n.advanceTo(startB[i]); t.side[0]->apply(i); } t.sc.n.advanceTo(std::max(ends[1], t.sc.n.nowUs)); t.side[0]->finish(); alone[1] = t.side[0]->trace.str(); }
	(void)endB; if (nested) c.label("B acts in the middle of an operation of A");
	for (unsigned i = 0; i < 2; ++i) if (both[i] != alone[i]) { auto &x = both[i], &y = alone[i]; size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) ++k; size_t from = k > 150 ? k - 150 : 0; c.fail(std::string("objects of one side behave differently when unrelated objects are used too (side ") + (i ? "B" : "A") + "): ..." + x.substr(from, 260) + "   alone: ..." + y.substr(from, 260)); }
	c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C26",
	"Two sets of library objects (session, routers, identity and parameter objects, file uploads in progress, fault manager, connection manager with connections, discovery) with their own devices, which use equal ids; a random program of 1-8 operations for each, with good, refused, cut, slow, missing and broken answers. Executed together - the second program's operations run between or, through the log appender, in the middle of the first one's - and each alone, with time passing where the other was at work. Oracle: the full trace of each side (results, exceptions, callbacks, requests and datagrams sent, times) is the same in both executions, except for the connection serial numbers and ids the library picks. Every case is non-trivial.",
	run, 256, 25000, 1200000, 700, 10000};
