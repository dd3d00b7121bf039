// C14: file uploads through the file object.
#include "device.h"
#include "FileObject.h"
#include "fileObject/FileObjectState.h"
#include <memory>
using namespace pbt;
using namespace eipScanner;

namespace {
struct SessionLost : std::runtime_error { SessionLost() : std::runtime_error("session lost") {} };
enum Fault { NONE, ERR_STATUS, WRONG_NUMBER, SHORT_HEADER, SHORT_DATA, UNKNOWN_TYPE, TOO_LITTLE, TOO_MUCH, SESSION, SESSION_THEN_ERR };
const char* faultName[] = {"no fault", "error status", "wrong packet number", "packet without number or type", "packet shorter than its data", "unknown packet type", "content too small", "content too large", "session error", "session error"};

void run(Case& c) {
	uint16_t instance = c.u16();
	auto d = std::make_shared<dev::Device>(c, c.u32());
	c.desc << "instance " << instance;
	// --- state read in the constructor
	unsigned sk = unsigned(c.below(12)); uint8_t state = sk < 6 ? 2 : sk == 6 ? 3 : sk == 7 ? 5 : sk == 8 ? uint8_t(c.below(2)) : sk == 9 ? c.u8() : 2;
	wire::Reply st; st.service = 0x8E; st.data = Bytes{state}; bool bad = false;
	if (sk == 10) { st.status = dev::errorStatus(c); if (c.coin()) st.ext.push_back(c.u16()); if (c.coin()) st.data.clear(); bad = true; c.label("state refused"); }
	if (sk == 11) { st.data.clear(); bad = true; c.label("state missing from the reply"); }
	if (!bad && state != 0 && state != 1 && state != 2 && state != 3 && state != 5) { bad = true; c.label("unknown state"); }
	else if (!bad && c.oneIn(8)) st.data = wire::W().u8(state).raw(c.bytesUpTo(4)).b;
	c.desc << " state " << int(state) << (bad ? " (must be rejected)" : "");
	d->onRequest = [&](const dev::Exchange& x) {
		expectEq(c, x.req.service, uint8_t(0x0E), "service reading the state"); EXPECT(c, x.req.path == wire::path(0x37, instance, 1), "path reading the state: " << wire::show(x.req.path)); expectEq(c, x.req.data, Bytes(), "data of the state request");
		return st; };
	std::unique_ptr<FileObject> f; auto make = [&] { f = std::make_unique<FileObject>(instance, d); };
	if (bad) { mustThrow(c, "file object with a bad state", make); c.nontrivial(); expectEq(c, d->log.size(), size_t(1), "requests made by the constructor"); return; }
	mustPass(c, "file object", make); expectEq(c, d->log.size(), size_t(1), "requests made by the constructor");
	expectEq(c, f->getClassId(), uint16_t(0x37), "class id"); expectEq(c, f->getInstanceId(), instance, "instance id");

	unsigned uploads = 1 + unsigned(c.below(3)), completed = 0;
	if (c.oneIn(6)) { size_t k = d->log.size(); bool more = true; mustPass(c, "transfer before an upload", [&] { more = f->handleTransfers(d); }); EXPECT(c, !more, "transfers in progress though no upload was begun"); expectEq(c, d->log.size(), k, "requests sent though no upload was begun"); }
	for (unsigned u = 0; u < uploads; ++u) {
		unsigned calls = 0, status = 0; Bytes content;
		fileObject::EndUploadHandler h = [&](cip::GeneralStatusCodes s, const std::vector<uint8_t>& v) { ++calls; status = s; content = v; };
		if (state < 2) {
			size_t k = d->log.size(); bool more = true; c.label(state ? "empty file" : "missing file");
			mustPass(c, "upload of a file that cannot be uploaded", [&] { f->beginUpload(d, h); more = f->handleTransfers(d); });
			EXPECT(c, !more, "something to transfer from an empty or missing file"); expectEq(c, d->log.size(), k, "requests sent for an empty or missing file");
			EXPECT(c, calls == 0 || (calls == 1 && status != 0 && content.empty()), "success reported for an empty or missing file"); c.nontrivial(); continue;
		}
		unsigned ts = c.coin() ? unsigned(c.range(1, 255)) : c.pick({1u, 2u, 4u, 254u, 255u});
		size_t packets, size;
		if (c.oneIn(10)) { ts = std::min(ts, 24u); packets = 250 + c.below(300); size = (packets - 1) * ts + (c.coin() ? ts : 1 + c.below(ts)); }
		else size = c.coin() ? c.size(20 * ts, {0, 1, ts, ts + 1u, 2u * ts}) : c.size(4000, {0, 1, 255, 510});
		Bytes file = c.bytes(size); uint16_t crc = c.u16(); bool emptyTail = size && size % ts == 0 && c.coin();
		std::vector<std::pair<uint8_t, Bytes>> pk; // type, data
		{ size_t pos = 0; do { size_t n = std::min<size_t>(ts, size - pos); pk.push_back({1, Bytes(file.begin() + long(pos), file.begin() + long(pos + n))}); pos += n; } while (pos < size); }
		if (emptyTail) pk.push_back({1, {}});
		pk.front().first = 0; pk.back().first = 2; if (pk.size() == 1) pk[0].first = 4;
		packets = pk.size();
		// --- fault plan
		Fault fault = NONE; size_t at = 0; int startFault = 0; uint8_t err = dev::errorStatus(c);
		if (c.below(3) == 2) { if (c.oneIn(5)) startFault = 1 + int(c.below(3)); else { fault = Fault(1 + c.below(9)); at = c.oneIn(3) ? packets - 1 : c.below(packets); } }
		uint32_t announced = uint32_t(size); bool mustErr = false;
		if (fault == TOO_LITTLE || fault == TOO_MUCH) {
			at = packets - 1; mustErr = true;
			if (c.coin()) { // the announcement is off
				announced = fault == TOO_MUCH && size ? uint32_t(c.below(size)) : uint32_t(size + 1 + (c.coin() ? c.below(3) : c.below(UINT32_MAX - size - 1))); if (c.oneIn(8)) announced = uint32_t(size) ^ (1u << (8 * (1 + c.below(3))));
				c.desc << " announced " << announced; }
			else { // the last packet ends early or carries more
				auto& last = pk.back().second; if (fault == TOO_MUCH) { Bytes m = c.bytes(1 + c.below(20)); last.insert(last.end(), m.begin(), m.end()); } else if (last.empty()) mustErr = false; else last.resize(c.below(last.size())); }
		}
		c.desc << " | upload " << size << " bytes in " << packets << " packets of " << ts;
		if (startFault) c.desc << " start fault " << startFault; if (fault) c.desc << " " << faultName[fault] << " at packet " << at;
		c.label(startFault ? "refused or malformed start" : faultName[fault]); if (packets > 256) c.label("more than 256 packets"); if (packets == 1) c.label("single packet");
		bool reject = false; // the current reply is malformed
		unsigned lost = 0; size_t next = 0; bool begun = false;
		d->onRequest = [&](const dev::Exchange& x) {
			wire::Reply r; r.service = x.req.service | 0x80; reject = false;
			EXPECT(c, x.req.path == wire::path(0x37, instance), "path of a file request: " << wire::show(x.req.path));
			if (!begun) {
				expectEq(c, x.req.service, uint8_t(0x4B), "service starting the upload"); expectEq(c, x.req.data, Bytes{255}, "maximum transfer size"); begun = true;
				r.data = wire::W().u32(announced).u8(ts).b;
				if (startFault == 1) { r.status = err; if (c.coin()) r.data.clear(); if (c.coin()) r.ext.push_back(c.u16()); }
				if (startFault == 2) { r.data.resize(c.below(5)); reject = true; }
				if (startFault == 3) throw SessionLost();
				return r;
			}
			expectEq(c, x.req.service, uint8_t(0x4F), "service transferring a packet"); expectEq(c, x.req.data, Bytes{uint8_t(next)}, "number of the requested packet");
			if (next >= packets) c.fail("a packet was requested after the last one");
			bool here = fault && next == at; auto& p = pk[next]; bool last = next + 1 == packets; uint8_t num = uint8_t(next), type = p.first; Bytes body = p.second;
			if (here && (fault == SESSION || fault == SESSION_THEN_ERR) && !lost) { ++lost; throw SessionLost(); }
			if (here && (fault == ERR_STATUS || fault == SESSION_THEN_ERR)) { r.status = err; if (c.coin()) r.data = c.bytesUpTo(10); if (c.coin()) r.ext.push_back(c.u16()); return r; }
			if (here && fault == WRONG_NUMBER) num = uint8_t(num + 1 + c.below(255));
			if (here && fault == UNKNOWN_TYPE) { type = c.oneIn(3) ? 3 : uint8_t(5 + c.below(251)); reject = true; }
			if (last) body = wire::W().raw(body).u16(crc).b;
			r.data = wire::W().u8(num).u8(type).raw(body).b;
			if (here && fault == SHORT_HEADER) { r.data.resize(c.below(2)); reject = true; }
			if (here && fault == SHORT_DATA) { r.data.resize(2 + c.below(last ? 2 : ts)); reject = true; }
			++next; return r;
		};
		// --- start
		bool threw = false; auto begin = [&] { f->beginUpload(d, h); };
		if (startFault == 3) { try { begin(); c.fail("a session error at the start did not reach the caller"); } catch (const SessionLost&) {} EXPECT(c, calls == 0 || (calls == 1 && status), "success reported after a session error"); continue; }
		if (startFault == 2) { threw = guarded(c, "start with a short reply", begin) != Outcome::OK; EXPECT(c, threw || (calls == 1 && status != 0 && content.empty()), "a short reply to the start neither raised nor gave one error"); c.nontrivial(); continue; }
		mustPass(c, "start of an upload", begin); EXPECT(c, begun, "no request to start the upload was sent");
		if (startFault == 1) {
			expectEq(c, calls, 1u, "handler calls after a refused start"); expectEq(c, status, unsigned(err), "status of a refused start"); EXPECT(c, content.empty(), "content after a refused start");
			bool more = true; mustPass(c, "transfer after a refused start", [&] { more = f->handleTransfers(d); }); EXPECT(c, !more && calls == 1, "not finished after a refused start"); c.nontrivial(); continue; }
		expectEq(c, calls, 0u, "handler calls before the first packet");
		// --- transfer
		bool done = false; size_t guard = packets + 5;
		while (!done) {
			if (!guard--) c.fail("the upload does not end");
			size_t k = d->log.size(); bool more = false, here = fault && next == at; unsigned wasLost = lost;
			threw = guarded(c, "transfer", [&] { more = f->handleTransfers(d); }) != Outcome::OK;
			expectEq(c, d->log.size(), k + 1, "requests of one transfer step");
			if (lost != wasLost) { EXPECT(c, threw, "a session error during a transfer did not reach the caller"); EXPECT(c, calls == 0, "handler called after a session error"); continue; }
			if (reject) { // malformed packet: exception or the single error
				if (!threw) { EXPECT(c, !more && calls == 1 && status != 0 && content.empty(), "a malformed packet neither raised nor gave exactly one error and finished"); }
				else EXPECT(c, calls == 0 || (calls == 1 && status != 0 && content.empty()), "success reported for a malformed packet");
				done = true; break; }
			EXPECT(c, !threw, "a transfer step raised an exception on a well-formed reply");
			if (here && (fault == ERR_STATUS || fault == WRONG_NUMBER || fault == SESSION_THEN_ERR)) {
				EXPECT(c, !more, "still in progress after a failed transfer"); expectEq(c, calls, 1u, "handler calls after a failed transfer"); EXPECT(c, content.empty(), "content after a failed transfer");
				if (fault == WRONG_NUMBER) EXPECT(c, status != 0, "success after a wrong packet number"); else expectEq(c, status, unsigned(err), "status of a failed transfer");
				done = true; break; }
			if (next == packets) {
				EXPECT(c, !more, "still in progress after the last packet"); expectEq(c, calls, 1u, "handler calls after the last packet");
				if (mustErr) EXPECT(c, status != 0 && content.empty(), "content of a wrong size was accepted");
				else { expectEq(c, status, 0u, "status of a complete upload"); expectEq(c, content, file, "uploaded content"); ++completed; if (packets >= 2) c.nontrivial(); }
				done = true; break; }
			EXPECT(c, more, "finished before the last packet"); expectEq(c, calls, 0u, "handler called before the last packet");
		}
		if (fault) c.nontrivial();
		if (reject && threw) break; // what follows a protocol violation is not specified
		if (c.coin()) { // asking again must be harmless
			begun = true; size_t k = d->log.size(); d->onRequest = nullptr; bool more = true; unsigned before = calls;
			d->onRaw = [&](const dev::Exchange&) -> Bytes { c.fail("a request was sent after the upload had ended"); };
			mustPass(c, "transfer after the end", [&] { more = f->handleTransfers(d); }); d->onRaw = nullptr;
			EXPECT(c, !more, "a finished upload reports itself in progress"); expectEq(c, calls, before, "handler calls after the end"); expectEq(c, d->log.size(), k, "requests after the end"); c.label("asked again after the end"); }
	}
	if (completed >= 2) c.label("several uploads with one object");
}
}
extern const Property pbt::theProperty = {"C14",
	"Histories of a file object: a state read (all states, error status, missing byte), then 1-3 uploads of random files of 0 to about 13000 bytes (a tenth with 250-550 packets) in packets of 1-255 bytes, with at most one injected fault per upload: refused/short start, error status, wrong packet number, missing header, short data, unknown type, announced size not matching, session exception. Oracle: a scripted device knows the next packet number and the file; handler calls, returned progress, requests and content are checked after every step. Non-trivial: an upload of at least two packets completed, or a fault was injected, or the file could not be uploaded.",
	run, 256, 24000, 800000, 2000, 8000};
