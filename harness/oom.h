// Memory that may run out: every allocation made while armed may be refused (a choice of the explorer), once or from
// then on; everything allocated while tracked must be released again.
#pragma once
#include "mc.h"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

namespace oom {
	// nothing in here may allocate through operator new
	static const size_t CAP = 1 << 16;
	static void* g_live[CAP]; static size_t g_count;
	static bool g_track, g_armed, g_busy, g_out; static size_t g_refused, g_asked;
	static size_t slot(void* p) { size_t i = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; while (g_live[i] && g_live[i] != p) i = (i + 1) % CAP; return i; }
	static void note(void* p) { if (!p || !g_track || g_busy) return; if (g_count >= CAP / 2) { fputs("oom: table full\n", stderr); _exit(99); } g_live[slot(p)] = p; g_count++; }
	static void forget(void* p)
	{
		if (!p || !g_count) return;
		size_t i = slot(p); if (!g_live[i]) return;
		g_live[i] = nullptr; g_count--;
		for (size_t j = (i + 1) % CAP; g_live[j]; j = (j + 1) % CAP) { void* q = g_live[j]; g_live[j] = nullptr; g_live[slot(q)] = q; }
	}
	static bool refuse(size_t n)
	{
		if (!g_armed || g_busy) return false;
		g_asked++;
		if (g_out) { g_refused++; return true; }
		g_busy = true; size_t c = mc::choose_dev(3); g_busy = false;
		if (c) { g_refused++; g_out = c == 2; if (mc::g_verbose) { g_busy = true; MC_LOG("    allocation %zu (%zu bytes) is refused%s", g_asked, n, g_out ? ", and all that follow" : ""); g_busy = false; } }
		return c != 0;
	}
	static void* take(size_t n) { if (refuse(n)) return nullptr; void* p = malloc(n ? n : 1); note(p); return p; }
	static void give(void* p) { forget(p); free(p); }
	struct arm { arm() { g_armed = true; g_out = false; g_refused = g_asked = 0; } ~arm() { g_armed = false; g_out = false; } }; // armed within the scope
	struct pause { bool was = g_armed; pause() { g_armed = false; } ~pause() { g_armed = was; } };
	struct track { // everything allocated within must be released within
		track() { memset(g_live, 0, sizeof g_live); g_count = 0; g_track = true; }
		~track() { g_track = false; g_armed = false; }
		void done(const char* key, const char* what) { g_track = false; size_t n = g_count; g_count = 0; MC_CHECK(!n, key, "%s: %zu allocation%s never released", what, n, n == 1 ? " is" : "s are"); }
	};
}
void* operator new(size_t n) { void* p = oom::take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = oom::take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return oom::take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return oom::take(n); }
void operator delete(void* p) noexcept { oom::give(p); }
void operator delete[](void* p) noexcept { oom::give(p); }
void operator delete(void* p, size_t) noexcept { oom::give(p); }
void operator delete[](void* p, size_t) noexcept { oom::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { oom::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { oom::give(p); }
// The same for malloc() as called from the headers: include them after this.
namespace oom {
	static void* c_malloc(size_t n) { return take(n); }
	static void* c_realloc(void* p, size_t n) { if (n && refuse(n)) return nullptr; if (!n) { give(p); return nullptr; } forget(p); void* q = ::realloc(p, n); note(q); return q; }
	static void c_free(void* p) { give(p); }
}
