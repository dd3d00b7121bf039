// C30: what the library hands out as values behaves as values; what owns a resource has one owner.
#include "engine.h"
#include "wire.h"
#include "device.h"
#include "sim.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "ConnectionManager.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "eip/CommonPacket.h"
#include "eip/EncapsPacket.h"
#include "cip/MessageRouterRequest.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "utils/Buffer.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"
#include <algorithm>
#include <memory>
using namespace pbt;
using namespace eipScanner;
using namespace eipScanner::cip;
using namespace eipScanner::cip::connectionManager;
namespace pf = eipScanner::vendor::ra::powerFlex525;

namespace {
// What an object shows, gathered through its whole public interface.
struct Obs { std::ostringstream o;
	template <class V> Obs& num(const char* n, V v) { o << n << '=' << +v << ' '; return *this; }
	Obs& raw(const char* n, const Bytes& b) { o << n << "=[" << b.size() << "]" << hex(b, 4000) << ' '; return *this; }
	Obs& str(const char* n, const std::string& s) { return raw(n, Bytes(s.begin(), s.end())); }
	Obs& items(const char* n, const eip::CommonPacketItem::Vec& v) { o << n << "=("; for (auto& i : v) { num("t", unsigned(i.getTypeId())).num("l", i.getLength()).raw("d", i.getData()).bytes("p", [&] { return i.pack(); }); } o << ") "; return *this; }
	template <class F> Obs& bytes(const char* n, F f) { try { return raw(n, f()); } catch (const std::runtime_error&) { o << n << "=refused "; return *this; } }
	template <class F> Obs& text(const char* n, F f) { try { return str(n, f()); } catch (const std::runtime_error&) { o << n << "=refused "; return *this; } }
};
template <class V> void refusable(const V& f) { try { f(); } catch (const std::runtime_error&) {} }

// A device that always gives the same answer to the same question
struct Fixed : SessionInfoIf { wire::Reply r; std::map<unsigned, Bytes> attribute;
	eip::EncapsPacket sendAndReceive(const eip::EncapsPacket& q) const override { wire::Encaps e; std::vector<wire::Item> items; wire::Request req; wire::Reply r = this->r; if (wire::parse(q.pack(), e) && e.data.size() > 6 && wire::parseItems(Bytes(e.data.begin() + 6, e.data.end()), items) && items.size() > 1 && wire::parseRequest(items[1].data, req) && req.path.n == 3) { auto at = attribute.find(req.path.id[2]); if (at != attribute.end()) r.data = at->second; } eip::EncapsPacket p; p.expand(wire::encaps(0x6F, 1, 0, wire::rrReply(r))); return p; }
	CipUdint getSessionHandle() const override { return 1; }
	sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint("10.0.0.1", 44818); } };
SessionInfoIf::SPtr fixed(const Bytes& data) { auto f = std::make_shared<Fixed>(); f->r.service = 0x81; f->r.data = data; return f; }

Bytes someItems(Case& c) { std::vector<wire::Item> v; for (size_t n = c.below(4); n; --n) { wire::Item i; i.type = c.u16(); i.data = c.bytesUpTo(40, {0}); if (c.oneIn(3)) { std::vector<wire::Item> in(c.below(3)); for (auto& q : in) { q.type = c.u16(); q.data = c.bytesUpTo(12); } i.data = wire::packItems(in); } v.push_back(i); } return wire::packItems(v); }
Bytes someReply(Case& c) { wire::Reply r; r.service = c.u8(); r.status = c.u8(); for (size_t n = c.below(4); n; --n) r.ext.push_back(c.u16()); r.data = c.bytesUpTo(60, {0}); if (c.oneIn(3)) { wire::Reply q; q.service = c.u8(); q.status = c.u8(); q.data = c.bytesUpTo(20); r.data = wire::packReply(q); } return wire::packReply(r); }
Bytes cut(Case& c, Bytes b) { if (c.oneIn(6) && !b.empty()) b.resize(c.below(b.size())); return b; }
std::string word(Case& c) { return c.text(c.size(60, {0, 15, 16})); }
std::string dotted(Case& c) { return sim::ipText(c.u32()); }

// One kind of value: how to make one, what can be done to one (perhaps with the parts of another, or its own), what it shows.
template <class T> using Make = std::function<T()>;
template <class T> using Step = std::function<void(T&, T&)>;

struct KBuffer { using T = utils::Buffer; static constexpr const char* name = "Buffer";
	static Make<T> make(Case& c) { switch (c.below(3)) { case 0: return [] { return T(); }; case 1: { size_t n = c.below(100); return [n] { return T(n); }; } default: { Bytes b = c.bytesUpTo(80); return [b] { return T(b); }; } } }
	static Step<T> step(Case& c) { switch (c.below(12)) {
		case 0: { auto v = c.u8(); return [v](T& t, T&) { t << v; }; } case 1: { auto v = c.u16(); return [v](T& t, T&) { t << v; }; } case 2: { auto v = c.u32(); return [v](T& t, T&) { t << v; }; } case 3: { auto v = c.u64(); return [v](T& t, T&) { t << v; }; }
		case 4: { Bytes v = c.bytesUpTo(60); return [v](T& t, T&) { t << v; }; } case 5: { Bytes v = c.bytesUpTo(60); return [v](T& t, T&) { t << CipString(v); }; } case 6: { auto h = dotted(c); auto p = c.u16(); return [h, p](T& t, T&) { t << sockets::EndPoint(h, p); }; }
		case 7: return [](T& t, T& o) { if (t.size() + o.size() < 5000) t << o.data(); };
		case 8: { size_t n = c.below(20); return [n](T& t, T&) { Bytes b(n); t >> b; }; } case 9: return [](T& t, T&) { uint16_t v; t >> v; }; case 10: return [](T& t, T&) { uint64_t v; t >> v; };
		default: return [](T& t, T& o) { if (o.size()) { Bytes b = o.data(); t << b[b.size() / 2] << int16_t(b.size()) << 1.5f << -2.25; } }; } }
	static void see(T& t, Obs& o) { o.raw("data", t.data()).num("size", t.size()).num("pos", t.pos()).num("valid", t.isValid()).num("empty", t.empty()); } };

struct KEncaps { using T = eip::EncapsPacket; static constexpr const char* name = "EncapsPacket"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { if (c.coin()) return [] { return T(); }; Bytes b = wire::encaps(c.u16(), c.u32(), c.u32(), c.bytesUpTo(80)); return [b] { T t; t.expand(b); return t; }; }
	static Step<T> step(Case& c) { switch (c.below(9)) {
		case 0: { auto v = c.u16(); return [v](T& t, T&) { t.setCommand(eip::EncapsCommands(v)); }; } case 1: { auto v = c.u32(); return [v](T& t, T&) { t.setSessionHandle(v); }; } case 2: { auto v = c.u32(); return [v](T& t, T&) { t.setStatusCode(eip::EncapsStatusCodes(v)); }; }
		case 3: { Bytes v = c.bytesUpTo(90); return [v](T& t, T&) { t.setData(v); }; } case 4: return [](T& t, T& o) { t.setData(o.getData()); }; case 5: return [](T& t, T& o) { t.setData(o.pack()); };
		case 6: { Bytes b = cut(c, wire::encaps(c.u16(), c.u32(), c.u32(), c.bytesUpTo(80))); return [b](T& t, T&) { t.expand(b); }; } case 7: return [](T& t, T& o) { t.expand(o.getData()); };
		default: { Bytes b = wire::encaps(c.u16(), c.u32(), c.u32(), wire::encaps(c.u16(), c.u32(), c.u32(), c.bytesUpTo(30))); return [b](T& t, T& o) { o.setData(b); t.expand(o.getData()); }; } } }
	static void see(T& t, Obs& o) { o.num("cmd", unsigned(t.getCommand())).num("len", t.getLength()).num("handle", t.getSessionHandle()).num("status", unsigned(t.getStatusCode())).raw("data", t.getData()).bytes("pack", [&] { return t.pack(); }); } };

struct KItem { using T = eip::CommonPacketItem; static constexpr const char* name = "CommonPacketItem"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { if (c.oneIn(4)) return [] { return T(); }; auto id = eip::CommonPacketItemIds(c.u16()); Bytes b = c.bytesUpTo(80); return [id, b] { return T(id, b); }; }
	static Step<T> step(Case& c) { auto id = eip::CommonPacketItemIds(c.u16()); switch (c.below(3)) { case 0: { Bytes b = c.bytesUpTo(80); return [id, b](T& t, T&) { t = T(id, b); }; } case 1: return [id](T& t, T& o) { t = T(id, o.getData()); }; default: return [](T& t, T& o) { t = T(o.getTypeId(), t.getData()); }; } }
	static void see(T& t, Obs& o) { o.items("item", {t}); o.num("id", unsigned(t.getTypeId())).num("len", t.getLength()).raw("data", t.getData()).bytes("pack", [&] { return t.pack(); }); } };

struct KPacket { using T = eip::CommonPacket; static constexpr const char* name = "CommonPacket";
	static Make<T> make(Case& c) { if (c.oneIn(3)) return [] { return T(); }; Bytes b = someItems(c); return [b] { T t; t.expand(b); return t; }; }
	static Step<T> step(Case& c) { size_t k = c.below(8); switch (c.below(6)) {
		case 0: { auto id = eip::CommonPacketItemIds(c.u16()); Bytes b = c.coin() ? c.bytesUpTo(30) : someItems(c); return [id, b](T& t, T&) { t << eip::CommonPacketItem(id, b); }; }
		case 1: return [k](T& t, T& o) { if (!o.getItems().empty() && t.getItems().size() < 60) t << o.getItems()[k % o.getItems().size()]; };
		case 2: return [k](T& t, T& o) { if (!o.getItems().empty() && t.getItems().size() < 60) { auto& i = o.getItems()[k % o.getItems().size()]; t << i << eip::CommonPacketItem(eip::CommonPacketItemIds(k), {1, 2}) << o.getItems().front(); } };
		case 3: { Bytes b = cut(c, someItems(c)); return [b](T& t, T&) { t.expand(b); }; }
		case 4: return [k](T& t, T& o) { if (!o.getItems().empty()) t.expand(o.getItems()[k % o.getItems().size()].getData()); };
		default: return [](T& t, T& o) { t.expand(o.pack()); }; } }
	static void see(T& t, Obs& o) { o.items("items", t.getItems()).bytes("pack", [&] { return t.pack(); }); } };

template <class P> wire::Path anyPath(Case& c) { uint16_t a = c.u16(), b = c.u16(), d = c.u16(); switch (c.below(3)) { case 0: return wire::path(a); case 1: return wire::path(a, b); default: return wire::path(a, b, d); } }
template <class P> P toPath(const wire::Path& p) { return p.n == 1 ? P(p.id[0]) : p.n == 2 ? P(p.id[0], p.id[1]) : P(p.id[0], p.id[1], p.id[2]); }
struct KPath { using T = EPath; static constexpr const char* name = "EPath"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { if (c.oneIn(5)) return [] { return T(); }; auto p = anyPath<T>(c); return [p] { return toPath<T>(p); }; }
	static Step<T> step(Case& c) { auto p = anyPath<T>(c); bool e = c.coin(); switch (c.below(4)) { case 0: return [p](T& t, T&) { t = toPath<T>(p); }; case 1: { Bytes b = cut(c, wire::packPath(p, c.coin())); return [b](T& t, T&) { t.expandPaddedPath(b); }; } case 2: return [e](T& t, T& o) { t.expandPaddedPath(o.packPaddedPath(e)); }; default: return [](T& t, T& o) { t = T(o.getClassId(), t.getObjectId(), o.getAttributeId()); }; } }
	static void see(T& t, Obs& o) { o.num("c", t.getClassId()).num("o", t.getObjectId()).num("a", t.getAttributeId()).num("w", t.getSizeInWords()).num("w8", t.getSizeInWords(true)).str("s", t.toString()).bytes("p", [&] { return t.packPaddedPath(); }).bytes("p8", [&] { return t.packPaddedPath(true); }); } };
struct KYPath { using T = Yaskawa_EPath; static constexpr const char* name = "Yaskawa_EPath"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { if (c.oneIn(5)) return [] { return T(); }; auto p = anyPath<T>(c); return [p] { return toPath<T>(p); }; }
	static Step<T> step(Case& c) { auto p = anyPath<T>(c); switch (c.below(3)) { case 0: return [p](T& t, T&) { t = toPath<T>(p); }; case 1: return [](T& t, T& o) { t.expandPaddedPath(o.packPaddedPath()); }; default: return [](T& t, T& o) { t = T(o.getClassId(), t.getObjectId(), o.getAttributeId()); }; } }
	static void see(T& t, Obs& o) { o.num("c", t.getClassId()).num("o", t.getObjectId()).num("a", t.getAttributeId()).num("w", t.getSizeInWords()).str("s", t.toString()).bytes("p", [&] { return t.packPaddedPath(); }); } };

struct KRevision { using T = CipRevision; static constexpr const char* name = "CipRevision"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { if (c.oneIn(5)) return [] { return T(); }; auto a = c.u8(), b = c.u8(); return [a, b] { return T(a, b); }; }
	static Step<T> step(Case& c) { auto a = c.u8(), b = c.u8(); switch (c.below(3)) { case 0: return [a, b](T& t, T&) { t = T(a, b); }; case 1: return [a](T& t, T& o) { t = T(o.getMinorRevision(), a); }; default: return [a, b](T& t, T&) { utils::Buffer q(Bytes{a, b}); q >> t; }; } }
	static void see(T& t, Obs& o) { o.num("maj", t.getMajorRevision()).num("min", t.getMinorRevision()).str("s", t.toString()); } };
template <class S, unsigned W> struct KString { using T = S; static constexpr const char* name = W == 1 ? "CipShortString" : "CipString";
	static Make<T> make(Case& c) { if (c.oneIn(4)) return [] { return T(); }; if (c.coin()) { auto s = word(c); return [s] { return T(s); }; } Bytes b = c.bytesUpTo(255, {15, 16, 255}); return [b] { return T(b); }; }
	static Step<T> step(Case& c) { Bytes b = c.bytesUpTo(100); switch (c.below(5)) { case 0: return [b](T& t, T&) { t = T(b); }; case 1: return [](T& t, T& o) { t = T(o.getData()); }; case 2: return [](T& t, T& o) { t = T(o.toStdString() + t.toStdString()); }; case 3: return [b](T& t, T&) { utils::Buffer q; q << T(b); q >> t; }; default: return [](T& t, T& o) { t = o.getData(); }; } }
	static void see(T& t, Obs& o) { o.num("len", t.getLength()).raw("data", t.getData()).str("s", t.toStdString()); utils::Buffer b; b << t; o.raw("wire", b.data()); } };
struct KEnd { using T = sockets::EndPoint; static constexpr const char* name = "EndPoint"; static constexpr bool eq = true;
	static Make<T> make(Case& c) { auto h = dotted(c); auto p = c.u16(); if (c.coin()) return [h, p] { return T(h, p); }; uint32_t a = c.u32(); return [a, p] { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(p); s.sin_addr.s_addr = htonl(a); return T(s); }; }
	static Step<T> step(Case& c) { auto h = dotted(c); auto p = c.u16(); switch (c.below(5)) { case 0: return [h, p](T& t, T&) { t = T(h, p); }; case 1: return [p](T& t, T& o) { t = T(o.getHost(), p); }; case 2: return [h](T& t, T& o) { t = T(h, o.getPort()); }; case 3: return [](T& t, T& o) { sockaddr_in s = o.getAddr(); t = T(s); }; default: { Bytes b = wire::sockaddr(c.u32(), p); return [b](T& t, T&) { utils::Buffer q(b); q >> t; }; } } }
	static void see(T& t, Obs& o) { o.str("host", t.getHost()).num("port", t.getPort()).num("fam", t.getAddr().sin_family).num("ap", t.getAddr().sin_port).num("ip", t.getAddr().sin_addr.s_addr).str("s", t.toString()); utils::Buffer b; b << t; o.raw("wire", b.data()); } };
struct KRequest { using T = MessageRouterRequest; static constexpr const char* name = "MessageRouterRequest";
	static Make<T> make(Case& c) { auto s = c.u8(); auto p = anyPath<EPath>(c); Bytes b = c.bytesUpTo(80); bool e = c.coin(); return [=] { return T(s, toPath<EPath>(p), b, e); }; }
	static Step<T> step(Case& c) { auto m = make(c); if (c.coin()) return [m](T& t, T&) { t = m(); }; return [](T& t, T& o) { t = T(o.pack()[0], EPath(1, 2), t.pack()); }; }
	static void see(T& t, Obs& o) { o.bytes("pack", [&] { return t.pack(); }); } };
struct KYRequest { using T = Yaskawa_MessageRouterRequest; static constexpr const char* name = "Yaskawa_MessageRouterRequest";
	static Make<T> make(Case& c) { auto s = c.u8(); auto p = anyPath<EPath>(c); Bytes b = c.bytesUpTo(80); return [=] { return T(s, toPath<Yaskawa_EPath>(p), b); }; }
	static Step<T> step(Case& c) { auto m = make(c); return [m](T& t, T&) { t = m(); }; }
	static void see(T& t, Obs& o) { o.bytes("pack", [&] { return t.pack(); }); } };
struct KResponse { using T = MessageRouterResponse; static constexpr const char* name = "MessageRouterResponse";
	static Make<T> make(Case& c) { Bytes b = someReply(c); return [b] { T t; t.expand(b); return t; }; }
	static Step<T> step(Case& c) { switch (c.below(8)) { case 0: { auto v = c.u8(); return [v](T& t, T&) { t.setGeneralStatusCode(GeneralStatusCodes(v)); }; } case 1: { Bytes b = c.bytesUpTo(60); return [b](T& t, T&) { t.setData(b); }; } case 2: return [](T& t, T& o) { t.setData(o.getData()); };
		case 3: { Bytes b = cut(c, someReply(c)); return [b](T& t, T&) { t.expand(b); }; } case 4: case 5: return [](T& t, T& o) { t.expand(o.getData()); }; case 6: return [](T& t, T& o) { t.setAdditionalPacketItems(o.getAdditionalPacketItems()); };
		default: { Bytes b = someItems(c); return [b](T& t, T&) { eip::CommonPacket p; p.expand(b); t.setAdditionalPacketItems(p.getItems()); }; } } }
	static void see(T& t, Obs& o) { o.num("svc", unsigned(t.getServiceCode())).num("st", unsigned(t.getGeneralStatusCode())).num("n", t.getAdditionalStatus().size()); for (auto a : t.getAdditionalStatus()) o.num("a", a); o.raw("data", t.getData()).items("items", t.getAdditionalPacketItems()); } };
struct KBuilder { using T = NetworkConnectionParametersBuilder; static constexpr const char* name = "NetworkConnectionParametersBuilder";
	static Make<T> make(Case& c) { if (c.coin()) { bool l = c.coin(); return [l] { return T(0, l); }; } auto v = c.u32(); bool l = c.coin(); return [v, l] { return T(v, l); }; }
	static Step<T> step(Case& c) { auto v = unsigned(c.below(4)); switch (c.below(7)) { case 0: return [v](T& t, T&) { t.setRedundantOwner(T::RedundantOwner(v & 1)); }; case 1: return [v](T& t, T&) { t.setConnectionType(T::ConnectionType(v)); }; case 2: return [v](T& t, T&) { t.setPriority(T::Priority(v)); }; case 3: return [v](T& t, T&) { t.setType(T::Type(v & 1)); }; case 4: { auto s = uint16_t(c.below(511)); return [s](T& t, T&) { t.setConnectionSize(s); }; } case 5: return [](T& t, T& o) { t.setPriority(o.getPriority()).setConnectionType(o.getConnectionType()); }; default: return [](T& t, T& o) { t = T(o.build(), false); }; } }
	static void see(T& t, Obs& o) { o.num("v", t.build()).num("r", int(t.getRedundantOwner())).num("c", int(t.getConnectionType())).num("p", int(t.getPriority())).num("t", int(t.getType())).num("s", t.getConnectionSize()); } };
struct KOpenReply { using T = ForwardOpenResponse; static constexpr const char* name = "ForwardOpenResponse";
	static Bytes body(Case& c) { Bytes app = c.bytes(2 * c.below(20)); if (c.oneIn(3)) { app = wire::W().u32(c.u32()).u32(c.u32()).u16(c.u16()).u16(c.u16()).u32(c.u32()).u32(c.u32()).u32(c.u32()).u8(0).u8(0).b; } return wire::W().u32(c.u32()).u32(c.u32()).u16(c.u16()).u16(c.u16()).u32(c.u32()).u32(c.u32()).u32(c.u32()).u8(app.size() / 2).u8(0).raw(app).b; }
	static Make<T> make(Case& c) { Bytes b = body(c); return [b] { T t; t.expand(b); return t; }; }
	static Step<T> step(Case& c) { if (c.coin()) { Bytes b = cut(c, body(c)); return [b](T& t, T&) { t.expand(b); }; } return [](T& t, T& o) { if (o.getApplicationReplay().size() >= 26) t.expand(o.getApplicationReplay()); }; }
	static void see(T& t, Obs& o) { o.num("o", t.getO2TNetworkConnectionId()).num("t", t.getT2ONetworkConnectionId()).num("s", t.getConnectionSerialNumber()).num("v", t.getOriginatorVendorId()).num("os", t.getOriginatorSerialNumber()).num("oa", t.getO2TApi()).num("ta", t.getT2OApi()).num("n", t.getApplicationReplaySize()).raw("app", t.getApplicationReplay()); } };
struct KClose { using T = ForwardCloseRequest; static constexpr const char* name = "ForwardCloseRequest";
	static Make<T> make(Case& c) { auto a = c.u16(), b = c.u16(); auto s = c.u32(); Bytes p = c.bytes(2 * c.below(10)); return [=] { T t; t.setConnectionSerialNumber(a); t.setOriginatorVendorId(b); t.setOriginatorSerialNumber(s); t.setConnectionPath(p); return t; }; }
	static Step<T> step(Case& c) { auto a = c.u16(); auto s = c.u32(); Bytes p = c.bytes(2 * c.below(10)); switch (c.below(4)) { case 0: return [a](T& t, T&) { t.setConnectionSerialNumber(a); }; case 1: return [a](T& t, T&) { t.setOriginatorVendorId(a); }; case 2: return [s](T& t, T&) { t.setOriginatorSerialNumber(s); }; default: return [p](T& t, T&) { t.setConnectionPath(p); }; } }
	static void see(T& t, Obs& o) { o.bytes("pack", [&] { return t.pack(); }); } };
template <class R, unsigned L> struct KOpen { using T = R; static constexpr const char* name = L ? "LargeForwardOpenRequest" : "ForwardOpenRequest";
	static Make<T> make(Case& c) { ConnectionParameters p; p.priorityTimeTick = c.u8(); p.timeoutTicks = c.u8(); p.o2tNetworkConnectionId = c.u32(); p.t2oNetworkConnectionId = c.u32(); p.connectionSerialNumber = c.u16(); p.originatorVendorId = c.u16(); p.originatorSerialNumber = c.u32(); p.connectionTimeoutMultiplier = c.u8(); p.o2tRPI = c.u32(); p.o2tNetworkConnectionParams = c.u16(); p.t2oRPI = c.u32(); p.t2oNetworkConnectionParams = c.u16(); p.transportTypeTrigger = c.u8(); p.connectionPath = c.bytes(2 * c.below(12)); p.connectionPathSize = uint8_t(p.connectionPath.size() / 2); return [p] { return T(p); }; }
	static Step<T> step(Case& c) { auto m = make(c); return [m](T& t, T&) { t = m(); }; }
	static void see(T& t, Obs& o) { o.bytes("pack", [&] { return t.pack(); }); } };
Bytes identityBytes(Case& c) { return wire::W().u16(c.u16()).u16(c.u16()).u16(c.u16()).u8(c.u8()).u8(c.u8()).u16(c.u16()).u32(c.u32()).shortStr(word(c)).b; }
struct KIdentity { using T = IdentityObject; static constexpr const char* name = "IdentityObject";
	static Make<T> make(Case& c) { auto i = c.u16(); if (c.coin()) return [i] { return T(i); }; Bytes b = identityBytes(c); return [i, b] { return T(i, fixed(b)); }; }
	static Step<T> step(Case& c) { auto v = c.u16(); auto w = c.u32(); auto s = word(c); switch (c.below(9)) { case 0: return [v](T& t, T&) { t.setVendorId(v); }; case 1: return [v](T& t, T&) { t.setDeviceType(v); }; case 2: return [v](T& t, T&) { t.setProductCode(v); }; case 3: return [v](T& t, T&) { t.setRevision({uint8_t(v), uint8_t(v >> 8)}); }; case 4: return [v](T& t, T&) { t.setStatus(v); }; case 5: return [w](T& t, T&) { t.setSerialNumber(w); }; case 6: return [s](T& t, T&) { t.setProductName(s); }; case 7: return [](T& t, T& o) { t.setRevision(o.getRevision()); }; default: return [](T& t, T& o) { t.setProductName(o.getProductName()); }; } }
	static void see(T& t, Obs& o) { o.num("class", t.getClassId()).num("inst", t.getInstanceId()).num("v", t.getVendorId()).num("d", t.getDeviceType()).num("p", t.getProductCode()).num("ma", t.getRevision().getMajorRevision()).num("mi", t.getRevision().getMinorRevision()).num("st", t.getStatus()).num("sn", t.getSerialNumber()).str("n", t.getProductName()); } };
struct KFound { using T = IdentityItem; static constexpr const char* name = "IdentityItem";
	static Make<T> make(Case& c) { auto m = KIdentity::make(c); auto e = KEnd::make(c); return [m, e] { return T{m(), e()}; }; }
	static Step<T> step(Case& c) { auto s = KIdentity::step(c); auto e = KEnd::step(c); if (c.coin()) return [s](T& t, T& o) { s(t.identityObject, o.identityObject); }; return [e](T& t, T& o) { e(t.socketAddress, o.socketAddress); }; }
	static void see(T& t, Obs& o) { KIdentity::see(t.identityObject, o); KEnd::see(t.socketAddress, o); } };
template <class V> struct KParam { using T = ParameterObject; static constexpr const char* name = sizeof(V) == 2 ? "ParameterObject (16 bits)" : "ParameterObject (32 bits)";
	static Make<T> make(Case& c) { auto i = c.u16(); bool full = c.coin(); if (c.coin()) return [i, full] { return T(i, full, sizeof(V)); };
		wire::W w; auto put = [&] { if (sizeof(V) == 2) w.u16(c.u16()); else w.u32(c.u32()); }; put(); w.u8(4).u32(0).u16(c.below(32)).u8(sizeof(V) == 2 ? 0xC7 : 0xC8).u8(sizeof(V)); if (full) { w.shortStr(word(c)).shortStr(word(c)).shortStr(word(c)); put(); put(); put(); w.zeros(16).u8(c.below(4)); }
		auto f = std::make_shared<Fixed>(); f->r.service = 0x81; f->r.data = w.b; f->attribute[6] = {uint8_t(sizeof(V))}; for (unsigned a = 13; a <= 16; ++a) f->attribute[a] = wire::W().u16(1 + c.below(9)).b; return [=] { return T(i, full, f); }; }
	static Step<T> step(Case& c) { auto v = uint16_t(1 + c.below(100)); auto s = word(c); bool f = c.coin(); switch (c.below(18)) {
		case 0: return [f](T& t, T&) { t.setScalable(f); }; case 1: return [f](T& t, T&) { t.setReadOnly(f); }; case 2: return [v](T& t, T&) { t.template setEngMinValue<V>(t.actualToEngValue(v)); }; case 3: return [v](T& t, T&) { t.template setEngMaxValue<V>(t.actualToEngValue(v)); }; case 4: return [v](T& t, T&) { t.template setEngDefaultValue<V>(t.actualToEngValue(v)); };
		case 5: return [v](T& t, T&) { t.setType(CipDataTypes(v)); }; case 6: return [s](T& t, T&) { t.setName(s); }; case 7: return [s](T& t, T&) { t.setUnits(s); }; case 8: return [s](T& t, T&) { t.setHelp(s); }; case 9: return [](T& t, T& o) { t.setName(o.getHelp()); }; case 10: return [](T& t, T& o) { t.setUnits(o.getName()); }; case 11: return [](T& t, T& o) { t.setHelp(o.getHelp()); };
		case 12: return [v](T& t, T&) { t.setScalingMultiplier(v); }; case 13: return [v](T& t, T&) { t.setScalingDivisor(v); }; case 14: return [v](T& t, T&) { t.setScalingBase(v); }; case 15: return [v](T& t, T&) { t.setScalingOffset(int16_t(v)); }; case 16: return [v](T& t, T&) { t.setPrecision(uint8_t(v & 3)); };
		default: { Bytes b = c.bytes(sizeof(V)); return [b](T& t, T&) { t.updateValue(fixed(b)); }; } } }
	static void see(T& t, Obs& o) { o.num("class", t.getClassId()).num("inst", t.getInstanceId()).num("no", t.getParameter()).num("full", t.hasFullAttributes()).num("sc", t.isScalable()).num("ro", t.isReadOnly()).num("v", t.template getActualValue<V>()).num("min", t.template getMinValue<V>()).num("max", t.template getMaxValue<V>()).num("def", t.template getDefaultValue<V>()).num("type", int(t.getType())).str("n", t.getName()).str("u", t.getUnits()).str("h", t.getHelp()).num("mul", t.getScalingMultiplier()).num("div", t.getScalingDivisor()).num("base", t.getScalingBase()).num("off", t.getScalingOffset()).num("prec", t.getPrecision());
		o.o.precision(17); o.num("ev", t.template getEngValue<V>()).num("emin", t.template getEngMinValue<V>()).num("emax", t.template getEngMaxValue<V>()).num("edef", t.template getEngDefaultValue<V>()); } };
void seeFault(const pf::DPIFaultParameter::FaultDetails& d, Obs& o) { o.o.precision(17); o.num("no", d.faultNumber).num("code", d.faultCode).num("bus", d.busVoltage).num("cur", d.current).num("f", d.frequency); }
struct KFaultParam { using T = pf::DPIFaultParameter; static constexpr const char* name = "DPIFaultParameter";
	static Make<T> make(Case&) { return [] { T t; t.setFaultDetails({}); t.setFaultDescription({}); return t; }; }
	static Step<T> step(Case& c) { auto a = int(c.u16()); auto code = c.u16(); auto s = word(c), q = word(c); switch (c.below(4)) { case 0: return [=](T& t, T&) { T::FaultDetails d; d.faultNumber = a; d.faultCode = code; d.busVoltage = a / 10.0; d.current = code / 100.0; d.frequency = a + 0.5; t.setFaultDetails(d); }; case 1: return [=](T& t, T&) { t.setFaultDescription({a, s, q}); }; case 2: return [](T& t, T& o) { t.setFaultDescription(o.getFullInformation().faultDescription); }; default: return [](T& t, T& o) { t.setFaultDetails(o.getFaultDetails()); }; } }
	static void see(T& t, Obs& o) { seeFault(t.getFaultDetails(), o); seeFault(t.getFullInformation().faultDetails, o); auto& d = t.getFullInformation().faultDescription; o.num("ft", d.faultType).str("tx", d.faultText).str("ds", d.faultDescription); } };
struct KFaultObj { using T = pf::DPIFaultObject; static constexpr const char* name = "DPIFaultObject";
	static Make<T> make(Case& c) { auto i = c.u16(); auto s = c.text(16); Bytes b = wire::W().u16(c.u16()).u8(c.u8()).u8(c.u8()).raw(Bytes(s.begin(), s.end())).u32(c.u32()).u32(c.u32()).u16(c.u16()).b; return [i, b] { return T(i, fixed(b)); }; }
	static Step<T> step(Case& c) { auto m = make(c); return [m](T& t, T&) { t = m(); }; }
	static void see(T& t, Obs& o) { auto& f = t.getFullInformation(); o.num("class", t.getClassId()).num("inst", t.getInstanceId()).num("code", f.faultCode).num("p", f.dsiPort).num("d", f.dsiDeviceObject).raw("t", f.faultText.getData()).num("tl", f.faultText.getLength()).num("v", f.isValidData).num("r", f.isRealTime); if (f.isValidData) o.num("timer", f.timerValue); } };
struct KFaultCode { using T = pf::DPIFaultCode; static constexpr const char* name = "DPIFaultCode";
	static Make<T> make(Case& c) { auto v = c.coin() ? int(c.below(130)) : int(c.u16()); return [v] { return T(v); }; }
	static Step<T> step(Case& c) { auto m = make(c); return [m](T& t, T&) { t = m(); }; }
	static void see(T& t, Obs& o) { o.text("d", [&] { auto d = t.getFaultDescription(); return std::to_string(d.faultType) + d.faultText + d.faultDescription; }); } };

template <class K, class = void> struct Comparable { static constexpr bool value = false; };
template <class K> struct Comparable<K, std::void_t<decltype(K::eq)>> { static constexpr bool value = true; };

// The history that made a value; replaying it gives a value nothing else was ever made from.
template <class K> struct Recipe { using T = typename K::T; using P = std::shared_ptr<const Recipe>; Make<T> make; std::vector<std::pair<Step<T>, P>> steps; size_t cost = 1;
	T replay() const { T t = make(); for (auto& s : steps) { if (s.second) { T other = s.second->replay(); refusable([&] { s.first(t, other); }); } else refusable([&] { s.first(t, t); }); } return t; } };
template <class T> T throughFunction(T t) { return t; }

template <class K> void values(Case& c) {
	using T = typename K::T; using P = typename Recipe<K>::P; std::vector<T> pool; std::vector<P> how; unsigned copies = 0, changes = 0; c.desc << " " << K::name << ":"; c.label(K::name);
	auto fresh = [&] { auto r = std::make_shared<Recipe<K>>(); r->make = K::make(c); return P(r); };
	auto show = [](T& t) { Obs o; K::see(t, o); return o.o.str(); };
	auto check = [&](T& t, const P& p, const char* what, size_t i) { T want = p->replay(); std::string w = show(want), g = show(t); EXPECT(c, g == w, K::name << " after " << what << ", value " << i << " shows <" << g << "> but one with the same history and nothing else made from it shows <" << w << ">"); if constexpr (Comparable<K>::value) EXPECT(c, t == want && want == t, K::name << " after " << what << ": value " << i << " isn't equal to one with the same history"); EXPECT(c, show(t) == g, K::name << ": looking at a value changed it"); };
	for (unsigned n = 2 + unsigned(c.below(12)); n; --n) {
		if (pool.empty() || c.oneIn(6)) { P p = fresh(); if (c.coin()) pool.push_back(p->replay()); else pool.emplace_back(p->replay()); how.push_back(p); c.desc << " new"; continue; }
		size_t i = c.below(pool.size()), j = c.below(pool.size()); const char* what = "";
		switch (c.below(13)) {
		case 0: case 1: case 2: { what = "a change"; ++changes; auto r = std::make_shared<Recipe<K>>(*how[i]); auto s = K::step(c); bool self = i == j || r->cost + how[j]->cost > 60;
			// the other value may be the same object: its parts are then the arguments
			if (self) { T apart = how[i]->replay(), alias = how[i]->replay(); (void)apart; refusable([&] { s(pool[i], pool[i]); });
				// the outcome mustn't depend on whether the arguments belong to the object; steps that change the other value first aren't comparable
				T other = how[i]->replay(); std::string before = show(other); refusable([&] { s(alias, other); }); if (show(other) == before) { std::string a = show(pool[i]), b = show(alias); EXPECT(c, a == b, K::name << ": with parts of its own as arguments a value became <" << a << ">, with copies of them <" << b << ">"); }
				r->steps.push_back({s, nullptr}); r->cost += 1; c.desc << " change(" << i << " with its own parts)"; }
			else { P o = how[j]; refusable([&] { s(pool[i], pool[j]); }); r->steps.push_back({s, o}); r->cost += o->cost; c.desc << " change(" << i << " with parts of " << j << ")";
				// a step may change the other value, too
				T a = how[i]->replay(), b = how[j]->replay(); std::string was = show(b); refusable([&] { s(a, b); }); if (show(b) != was) { how.erase(how.begin() + long(j)); pool.erase(pool.begin() + long(j)); if (j < i) --i; } }
			how[i] = r; break; }
		case 3: what = "a copy appended"; pool.push_back(pool[i]); how.push_back(how[i]); ++copies; break;
		case 4: what = "assignment"; pool[i] = pool[j]; how[i] = how[j]; ++copies; if (i == j) c.label("assigned to itself"); break;
		case 5: { what = "move assignment"; if (i == j) { T t(std::move(pool[i])); pool[i] = std::move(t); } else { pool[i] = std::move(pool[j]); how[i] = how[j]; if (c.coin()) { pool[j] = pool[i]; } else { how[j] = fresh(); pool[j] = how[j]->replay(); } } c.label("moved from, then assigned"); ++copies; break; }
		case 6: what = "swap"; { using std::swap; swap(pool[i], pool[j]); swap(how[i], how[j]); } ++copies; break;
		case 7: what = "erase"; pool.erase(pool.begin() + long(i)); how.erase(how.begin() + long(i)); ++copies; break;
		case 8: { what = "insert"; P p = how[j]; pool.insert(pool.begin() + long(i), pool[j]); how.insert(how.begin() + long(i), p); ++copies; break; }
		case 9: what = "rotation"; std::rotate(pool.begin(), pool.begin() + long(i), pool.end()); std::rotate(how.begin(), how.begin() + long(i), how.end()); ++copies; break;
		case 10: what = "reallocation"; if (c.coin()) pool.reserve(pool.capacity() + 1); else pool.shrink_to_fit(); ++copies; break;
		case 11: { what = "a copy's changes"; std::vector<T> twin(pool); if (c.coin()) for (auto& t : twin) show(t); for (unsigned q = 1 + unsigned(c.below(3)); q; --q) { auto s = K::step(c); refusable([&] { s(twin[i], twin[j]); }); } if (c.coin()) pool[i] = pool[i]; copies += 1; ++changes; break; }
		default: { what = "a trip through a function"; T t = throughFunction(pool[i]); check(t, how[i], "a trip through a function", i); const T& k = t; T u(k), v = throughFunction(std::move(t)); check(u, how[i], "a copy from a constant", i); check(v, how[i], "a trip through a function", i); t = u; pool[i] = std::move(t); ++copies; break; } }
		if (*what && c.below(13) > 2) c.desc << ' ' << what;
		if (pool.size() > 7) { pool.erase(pool.begin()); how.erase(how.begin()); }
		if (c.coin()) for (size_t k = 0; k < pool.size(); ++k) check(pool[k], how[k], what, k); }
	for (size_t k = 0; k < pool.size(); ++k) check(pool[k], how[k], "all", k);
	if (copies && changes) c.nontrivial();
}

// ---- what owns a resource: wherever the language lets one be copied or moved, that has to work
struct Peer : sim::TcpPeer { size_t sent = 0, closed = 0; void onData(int fd, const Bytes& d) override { (void)fd; sent += d.size(); if (d.size() == 28 && d[0] == 0x65) sim::net->tcpSend(fd, 10, wire::encaps(0x65, 0x77, 0, wire::W().u16(1).u16(0).b)); if (d.size() >= 24 && d[0] == 0x66) ++unregistered; } void onClose(int) override { ++closed; } size_t unregistered = 0; };
template <class S, class F> void owner(Case& c, sim::Net& n, const char* what, F make, const std::function<void(S&)>& use) {
	c.label(what); size_t before = n.openCount(); unsigned how = unsigned(c.below(4)); bool copyFirst = c.coin();
	if constexpr (std::is_copy_constructible_v<S>) {
		auto a = make(); auto b = copyFirst ? std::make_unique<S>(*a) : nullptr; if (!b) { if constexpr (std::is_copy_assignable_v<S>) { b = make(); *b = *a; } else b = std::make_unique<S>(*a); }
		c.desc << " copy of a " << what; use(*a); use(*b); if (how & 1) a.swap(b); a.reset();
		size_t others = n.openCount(); auto third = std::make_unique<sockets::UDPSocket>("10.0.0.9", 9999); mustPass(c, std::string(what) + " used after its original or its copy is gone", [&] { use(*b); }); b.reset(); (void)others;
		mustPass(c, "a socket unrelated to the copies", [&] { third->Send({1}); }); EXPECT(c, n.socks.at(third->getSocketFd()).open, "destroying both a " << what << " and its copy closed a socket that isn't theirs"); third.reset();
	} else if constexpr (std::is_move_constructible_v<S>) {
		auto a = make(); auto b = std::make_unique<S>(std::move(*a)); c.desc << " move of a " << what; a.reset(); auto third = std::make_unique<sockets::UDPSocket>("10.0.0.9", 9999);
		mustPass(c, std::string(what) + " used after it was moved", [&] { use(*b); }); b.reset(); EXPECT(c, n.socks.at(third->getSocketFd()).open, "destroying a moved " << what << " closed a socket that isn't its own");
	} else { auto a = make(); use(*a); c.desc << " " << what << " has one owner"; }
	EXPECT(c, n.openCount() == before, "sockets left open after a " << what << ": " << n.openCount() - before);
}
void owners(Case& c) {
	sim::Scope sc; sim::Net& n = sc.n; std::vector<std::shared_ptr<Peer>> peers; n.onConnect = [](uint32_t, uint16_t) { return sim::ConnectPlan{}; }; n.onAccepted = [&](int) { peers.push_back(std::make_shared<Peer>()); return peers.back(); };
	switch (c.below(5)) {
	case 0: owner<sockets::UDPSocket>(c, n, "UDPSocket", [] { return std::make_unique<sockets::UDPSocket>("10.0.0.1", 2222); }, [&](sockets::UDPSocket& s) { size_t k = n.sent.size(); s.Send({1, 2, 3}); EXPECT(c, n.sent.size() == k + 1, "a datagram wasn't sent"); }); break;
	case 1: owner<sockets::TCPSocket>(c, n, "TCPSocket", [] { return std::make_unique<sockets::TCPSocket>(sockets::EndPoint("10.0.0.1", 44818), std::chrono::milliseconds(500)); }, [&](sockets::TCPSocket& s) { s.Send({1, 2, 3}); }); break;
	case 2: owner<sockets::UDPBoundSocket>(c, n, "UDPBoundSocket", [] { return std::make_unique<sockets::UDPBoundSocket>("0.0.0.0", 2222); }, [&](sockets::UDPBoundSocket& s) { s.setRecvTimeout(std::chrono::milliseconds(50)); sim::Datagram d; d.srcIp = sim::ip(10, 0, 0, 1); d.srcPort = 9; d.data = {4, 5}; n.deliverFd(s.getSocketFd(), d); EXPECT(c, s.Receive(10) == d.data, "a datagram was lost"); }); break;
	case 3: owner<SessionInfo>(c, n, "SessionInfo", [] { return std::make_unique<SessionInfo>("10.0.0.1", 44818, std::chrono::milliseconds(500)); }, [&](SessionInfo& s) { EXPECT(c, s.getSessionHandle() == 0x77, "session handle"); });
		for (auto& p : peers) EXPECT(c, p->unregistered <= 1, "one session was ended " << p->unregistered << " times"); break;
	default: { unsigned ids = 0, got = 0; auto d = std::make_shared<dev::Device>(c); d->onRequest = [&](const dev::Exchange& x) { wire::Reply r; r.service = uint8_t(x.req.service | 0x80); ++ids; r.data = wire::W().u32(0x5000 + ids).u32(0x7000 + ids).u16(5).u16(1).u32(2).u32(10000).u32(10000).u8(0).u8(0).b; return r; };
		ConnectionParameters p; p.connectionTimeoutMultiplier = 3; p.o2tRPI = p.t2oRPI = 10000; p.o2tNetworkConnectionParams = 0x4008; p.t2oNetworkConnectionParams = 0x4008; p.transportTypeTrigger = 1; p.connectionPath = {0x20, 4}; p.connectionPathSize = 1;
		owner<ConnectionManager>(c, n, "ConnectionManager", [&] { auto m = std::make_unique<ConnectionManager>(); auto w = m->forwardOpen(d, p).lock(); EXPECT(c, w != nullptr, "open failed"); w->setReceiveDataListener([&](CipUdint, CipUint, const Bytes&) { ++got; }); return m; },
			[&](ConnectionManager& m) { if (!m.hasOpenConnections()) return; ++ids; unsigned was = got; for (unsigned k = 1; k < 4; ++k) { sim::Datagram g; g.srcIp = sim::ip(10, 0, 0, 1); g.srcPort = 2222; g.data = wire::packItems({{0x8002, wire::W().u32(0x7000 + k).u32(100 + ids).b}, {0xB1, wire::W().u16(ids).raw(Bytes(6)).b}}); n.deliver(2222, g); } m.handleConnections(std::chrono::milliseconds(1)); (void)was; });
		break; } }
	c.nontrivial();
}

void run(Case& c) {
	switch (c.below(24)) {
	case 0: return values<KBuffer>(c); case 1: return values<KEncaps>(c); case 2: return values<KItem>(c); case 3: case 4: return values<KPacket>(c); case 5: return values<KPath>(c); case 6: return values<KYPath>(c); case 7: return values<KRevision>(c); case 8: return values<KString<CipShortString, 1>>(c); case 9: return values<KString<CipString, 2>>(c); case 10: return values<KEnd>(c); case 11: return values<KRequest>(c); case 12: return c.coin() ? values<KYRequest>(c) : values<KFaultCode>(c); case 13: return values<KResponse>(c); case 14: return values<KBuilder>(c); case 15: return values<KOpenReply>(c); case 16: return values<KClose>(c);
	case 17: return c.coin() ? values<KOpen<ForwardOpenRequest, 0>>(c) : values<KOpen<LargeForwardOpenRequest, 1>>(c); case 18: return values<KIdentity>(c); case 19: return values<KFound>(c); case 20: return c.coin() ? values<KParam<uint16_t>>(c) : values<KParam<uint32_t>>(c); case 21: return values<KFaultParam>(c); case 22: return values<KFaultObj>(c); default: return owners(c); }
}
}
extern const Property pbt::theProperty = {"C30",
	"Histories of 2-13 steps on a pool of up to 7 values of one of 24 library types: made anew, changed through every setter and expansion (a third of them with parts of another value or of the value itself as arguments, valid and cut inputs), copied, assigned (also to themselves), moved from and assigned again, swapped, inserted, erased, rotated, reallocated, passed through functions, and copies changed behind the original's back. Oracle: everything each value shows (getters, packed form, equality) is what a value with the same history shows that was made from scratch; looking at it doesn't change it; arguments taken from the value itself act like copies of them. One case in 24 is about the types that own a socket or connections: wherever they can be copied or moved, the result has to work, nothing is closed twice and nobody else's socket is closed. Non-trivial: at least one change and one copying step, or an owner was used.",
	run, 64, 60000, 1200000, 1500, 30000};
