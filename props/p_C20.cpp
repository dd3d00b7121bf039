// C20: endpoints as values.
#include "engine.h"
#include "sockets/EndPoint.h"
#include <arpa/inet.h>
#include <map>
#include <memory>
#include <set>
using namespace pbt;
using eipScanner::sockets::EndPoint;

namespace {
struct M { uint32_t ip; int port; bool operator==(const M& o) const { return ip == o.ip && port == o.port; } bool operator<(const M& o) const { return ip != o.ip ? ip < o.ip : port < o.port; } };
std::string text(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); return b; }
M gen(Case& c, const std::vector<M>& pool) {
	M m; m.ip = c.u32(); m.port = c.u16();
	if (!pool.empty()) { if (c.oneIn(2)) m.ip = c.pick(pool).ip; if (c.oneIn(2)) m.port = c.pick(pool).port; if (c.oneIn(3)) m.ip = c.pick(pool).ip ^ (1u << c.below(32)); }
	return m;
}
EndPoint fromText(const M& m) { return EndPoint(text(m.ip), m.port); }
EndPoint fromAddr(const M& m, Case* c = nullptr) {
	sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(uint16_t(m.port)); a.sin_addr.s_addr = htonl(m.ip);
	if (c && c->coin()) memset(a.sin_zero, 0x5A, sizeof a.sin_zero);
	return EndPoint(a);
}
void check(Case& c, const EndPoint& e, const M& m, const char* how) {
	std::string w(how);
	expectEq(c, e.getHost(), text(m.ip), w + ": host"); expectEq(c, e.getPort(), m.port, w + ": port");
	expectEq(c, int(e.getAddr().sin_family), AF_INET, w + ": address family");
	expectEq(c, uint32_t(ntohl(e.getAddr().sin_addr.s_addr)), m.ip, w + ": address"); expectEq(c, int(ntohs(e.getAddr().sin_port)), m.port, w + ": address port");
	expectEq(c, e.toString(), text(m.ip) + ":" + std::to_string(m.port), w + ": text");
}
void run(Case& c) {
	std::vector<M> ms; size_t n = 1 + c.size(12);
	for (size_t i = 0; i < n; ++i) ms.push_back(gen(c, ms));
	std::vector<EndPoint> es; for (auto& m : ms) { bool a = c.coin(); c.desc << text(m.ip) << ":" << m.port << (a ? "(addr) " : " "); es.push_back(a ? fromAddr(m, &c) : fromText(m)); check(c, es.back(), m, a ? "from socket address" : "from text"); }
	for (auto& m : ms) { EndPoint a = fromText(m), b = fromAddr(m, &c); EXPECT(c, a == b && b == a && !(a != b) && !(a < b) && !(b < a), "endpoint from text and from socket address differ: " << a.toString());
		EndPoint d(a); d = b; check(c, d, m, "assigned"); sockaddr_in sa = a.getAddr(); EndPoint again(sa); EXPECT(c, again == a, "endpoint rebuilt from its own address differs"); }
	bool sameHost = false, samePort = false;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
		bool eq = ms[i] == ms[j]; const EndPoint &a = es[i], &b = es[j]; std::string s = a.toString() + " and " + b.toString();
		if (!eq && ms[i].ip == ms[j].ip) sameHost = true; if (!eq && ms[i].port == ms[j].port) samePort = true;
		EXPECT(c, (a == b) == eq, "equality of " << s); EXPECT(c, (a != b) == !eq, "inequality of " << s);
		if (eq) EXPECT(c, !(a < b) && !(b < a), "equal endpoints are ordered: " << s);
		else EXPECT(c, (a < b) != (b < a), "of two different endpoints exactly one must be less: " << s);
	}
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (es[i] < es[j]) for (size_t k = 0; k < n; ++k) if (es[j] < es[k]) EXPECT(c, es[i] < es[k], "order is not transitive: " << es[i].toString() << " " << es[j].toString() << " " << es[k].toString());
	std::map<EndPoint, size_t> mp; std::set<EndPoint> st; std::map<M, size_t> mm;
	for (size_t i = 0; i < n; ++i) { mp[es[i]] = i; st.insert(es[i]); mm[ms[i]] = i; }
	expectEq(c, mp.size(), mm.size(), "entries of a map keyed by endpoint"); expectEq(c, st.size(), mm.size(), "entries of a set of endpoints");
	for (auto& kv : mm) { auto it = mp.find(fromText(kv.first)); EXPECT(c, it != mp.end() && it->second == kv.second, "endpoint is not found again in a map: " << text(kv.first.ip) << ":" << kv.first.port); EXPECT(c, st.count(fromAddr(kv.first)), "endpoint is not found again in a set"); }
	if (sameHost) c.label("same host, different ports"); if (samePort) c.label("same port, different hosts");
	if (mm.size() >= 2) c.nontrivial();
}
}
extern const Property pbt::theProperty = {"C20",
	"Pools of 1-13 endpoints whose hosts and ports are shared or differ in one bit with high probability, each built from dotted text or from a socket address (with clean or dirty padding); all pairs are checked for equality/inequality/order laws, all triples for transitivity, and std::map/std::set keyed by them against a reference map. Non-trivial: at least two distinct endpoints.",
	run, 512, 60000, 1500000, 0, 0};
