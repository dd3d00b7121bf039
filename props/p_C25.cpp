// C25: hostile or broken peers cannot hang, crash, exhaust or corrupt the client, whatever it does.
#include "hostile.h"
#include <sanitizer/allocator_interface.h>
#include <cstdlib>
#include <new>

// Live C++ heap bytes and their peak; fresh memory holds a chosen byte, so that reading memory
// nobody wrote shows as a difference between two executions of the same history.
static int fillByte = -1;
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (fillByte >= 0) memset(p, fillByte, n); liveBytes += int64_t(n ? n : 1); if (liveBytes > peakBytes) peakBytes = liveBytes; return p; }
static void give(void* p) { if (!p) return; liveBytes -= int64_t(__sanitizer_get_allocated_size(p)); free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

namespace {
void run(Case& c) {
	bool yaskawa = false; auto prog = generate(c, yaskawa);
	std::string first, second; unsigned hits = 0;
	fillByte = 0x00; { Body b(c, prog, yaskawa); first = b.all(); hits = b.hits; }
	fillByte = 0xA7; { Body b(c, prog, yaskawa); second = b.all(); } fillByte = -1;
	if (first != second) { size_t i = 0; while (i < first.size() && i < second.size() && first[i] == second[i]) ++i; size_t from = i > 60 ? i - 60 : 0; c.fail("the same history with other contents of unused memory ends differently: ..." + first.substr(from, 120) + " / ..." + second.substr(from, 120)); }
	if (hits) { c.nontrivial(); c.label("damage reached the client"); }
}
}
extern const Property pbt::theProperty = {"C25",
	"A random program of 1-5 operations (explicit request, identity, full scalable parameter with refresh, file upload, drive fault read-out with details, forward open and close in both forms, cyclic data, discovery) over real sessions on a simulated network against a plausible device, with up to three damages per operation, each at a chosen exchange (or from it on) and layer: reply data, status words, reply bytes, item list, common packet, encapsulation header, or byte stream (silence, cut, reset, drip, duplicate, junk before or after, late), damaged datagrams in between good ones, failing connects. The program is executed twice with different contents of fresh memory. Oracle: every operation ends with a result or std::runtime_error; virtual time within (requests + received pieces + 3) receive timeouts; peak heap within 400 kB + 64 bytes per received byte; one open TCP socket per session; at most one upload completion and ten faults; good datagrams between damaged ones are served; afterwards the same objects work exactly with a new session to the recovered device; nothing stays open; both executions agree. Non-trivial: a damaged answer was sent to the client.",
	run, 256, 30000, 1500000, 900, 12000};
