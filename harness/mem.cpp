// U04: memory helpers. Built with optimization: the compiler must not undo sanitizing.
#include "mc.h"
#include <stdex/compat.hpp>
#include <string.h>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <set>
#include <stdlib.h>
#include <string>
#include <unordered_map>
#include <vector>

// Blocks taken from the heap while watching are inspected when they are given back.
static struct { void* p; size_t n; } watched[256]; static size_t watching, dirty, released; static bool on;
__attribute__((noinline)) static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (on) { memset(p, 0xa5, n); if (watching < 256) { watched[watching].p = p; watched[watching++].n = n; } else abort(); } return p; }
__attribute__((noinline)) static void give(void* p)
{
	for (size_t i = 0; i < watching; i++) if (watched[i].p == p) { released++; for (size_t k = 0; k < watched[i].n; k++) if (((volatile unsigned char*)p)[k]) { dirty++; break; } watched[i] = watched[--watching]; break; }
	free(p);
}
__attribute__((noinline)) void* operator new(size_t n) { return take(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { give(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { give(p); }
__attribute__((noinline)) static void touch(const void* p) { __asm__ __volatile__("" : : "r"(p) : "memory"); }

static void clean(const char* what, size_t at_least)
{
	on = false;
	MC_CHECK(!dirty, "memory.sanitize", "%s: %zu blocks were released with content", what, dirty);
	MC_CHECK(!watching && released >= at_least, "memory.release", "%s: %zu blocks were not released", what, watching);
	watching = dirty = released = 0;
}
template <class T> struct el; template <> struct el<char> { static char v(int i) { return (char)('a' + i); } }; template <> struct el<int64_t> { static int64_t v(int i) { return 0x5a5a5a5a5a5a5a5aull + i; } };
struct big { char b[24]; bool operator<(const big& o) const { return memcmp(b, o.b, 24) < 0; } bool operator==(const big& o) const { return !memcmp(b, o.b, 24); } }; template <> struct el<big> { static big v(int i) { big x; memset(x.b, 'A' + i, 24); return x; } };
template <class T> using A = stdex::sanitizing_allocator<T>;

template <class T> static void vectors(uint64_t& h)
{
	size_t depth = mc::thorough() ? 6 : 5; std::string log; log.reserve(200);
	int ops[8]; for (size_t k = 0; k < depth; k++) { ops[k] = (int)mc::choose(9); if (k == 1) mc::job(); }
	for (size_t k = 0; k < depth; k++) { MC_LOG("op %d", ops[k]); h = mc::hmix(h, ops[k]); }
	on = true;
	{
		std::vector<T, A<T>> v, w;
		for (size_t k = 0; k < depth; k++) {
			switch (ops[k]) {
			case 0: for (int i = 0; i < 3; i++) v.push_back(el<T>::v(i)); break;
			case 1: v.resize(40, el<T>::v(7)); break;
			case 2: v.shrink_to_fit(); break;
			case 3: v.clear(); break;
			case 4: v.reserve(100); break;
			case 5: w = v; break;
			case 6: w = std::move(v); v.clear(); break;
			case 7: v.swap(w); break;
			case 8: if (!v.empty()) v.erase(v.begin()); v.insert(v.begin(), 5, el<T>::v(1)); break;
			}
			touch(v.data()); touch(w.data()); mc::transition();
		}
	}
	clean("vector", 0);
}
MC_HARNESS(vectors_of_char) { uint64_t h = 1; vectors<char>(h); mc::state(h); mc::outcome(h); mc::nontrivial(); }
MC_HARNESS(vectors_of_struct) { uint64_t h = 2; vectors<big>(h); mc::state(h); mc::outcome(h); mc::nontrivial(); }
MC_HARNESS(containers)
{
	size_t kind = mc::choose(7), n = mc::choose(60), cut = mc::choose(3);
	mc::job();
	on = true;
	switch (kind) {
	case 0: { std::basic_string<char, std::char_traits<char>, A<char>> s; for (size_t i = 0; i < n; i++) s += "secret"; if (cut == 1) s.clear(), s.shrink_to_fit(); if (cut == 2) s.insert(0, "more of it"); touch(s.data()); } break;
	case 1: { std::list<big, A<big>> s; for (size_t i = 0; i < n; i++) { s.push_back(el<big>::v((int)i)); touch(&s.back()); } if (cut) s.remove(el<big>::v(3)); if (cut == 2) s.reverse(); } break;
	case 2: { std::map<int, big, std::less<int>, A<std::pair<const int, big>>> s; for (size_t i = 0; i < n; i++) { s[(int)(i * 7 % 61)] = el<big>::v((int)i); touch(&s); } if (cut) for (int i = 0; i < 60; i += 3) s.erase(i); } break;
	case 3: { std::deque<int64_t, A<int64_t>> s; for (size_t i = 0; i < n * 10; i++) { if (i % 3) s.push_back(el<int64_t>::v((int)i)); else s.push_front(5); } for (size_t i = 0; i < n * 5 * cut; i++) s.pop_front(); touch(&s); } break;
	case 4: { std::set<big, std::less<big>, A<big>> s; for (size_t i = 0; i < n; i++) { s.insert(el<big>::v((int)i)); touch(&s); } if (cut) s.erase(s.begin(), s.end()); } break;
	case 5: { std::unordered_map<int, int64_t, std::hash<int>, std::equal_to<int>, A<std::pair<const int, int64_t>>> s; for (size_t i = 0; i < n; i++) { s[(int)i] = el<int64_t>::v((int)i); touch(&s); } if (cut) s.erase(1); } break;
	case 6: { A<big> a; A<int> b(a); A<big> c(b); big* p = a.allocate(n + 1); memset((void*)p, 0x5a, sizeof(big) * (n + 1)); touch(p); c.deallocate(p, n + 1); MC_CHECK(a == c && !(a != c), "memory.allocator", "copies of an allocator differ"); } break;
	}
	clean("container", n && kind ? 1 : 0);
	uint64_t h = kind * 1000 + n * 4 + cut; mc::transition(n); mc::state(h); mc::outcome(h); if (n) mc::nontrivial();
}
template <size_t N> static void blob()
{
	alignas(16) static unsigned char room[N + 16]; memset(room, 0x77, sizeof room); touch(room);
	auto* b = new (room) stdex::sanitizing_blob<N>; touch(b);
	for (size_t i = 0; i < N; i++) MC_CHECK(!((volatile unsigned char*)room)[i], "memory.blob", "byte %zu of a new blob of %zu bytes is not zero", i, N);
	memset(b->m_data, 0x5a, N); touch(b); b->~sanitizing_blob(); 
	for (size_t i = 0; i < N; i++) MC_CHECK(!((volatile unsigned char*)room)[i], "memory.blob", "byte %zu of a destroyed blob of %zu bytes still holds content", i, N);
	for (size_t i = N; i < N + 16; i++) MC_CHECK(((volatile unsigned char*)room)[i] == 0x77, "memory.blob", "a blob of %zu bytes wrote past its end", N);
	on = true; { auto* p = new stdex::sanitizing_blob<N>; memset(p->m_data, 0x5a, N); touch(p); delete p; } clean("blob", 1);
	on = true; { std::unique_ptr<stdex::sanitizing_blob<N>> p(new stdex::sanitizing_blob<N>); memset(p->m_data, 0x5a, N); touch(p.get()); } clean("blob in unique_ptr", 1);
	mc::transition(3); mc::state(N); mc::outcome(N); mc::nontrivial();
}
template <size_t... I> static void blobs(size_t k, std::index_sequence<I...>) { ((k == I ? blob<I + 1>() : (void)0), ...); }
MC_HARNESS(every_blob) { size_t k = mc::choose(160); mc::job(); blobs(k, std::make_index_sequence<160>()); }
MC_HARNESS(large_blobs) { size_t k = mc::choose(12); mc::job(); switch (k) { case 0: blob<255>(); break; case 1: blob<256>(); break; case 2: blob<257>(); break; case 3: blob<511>(); break; case 4: blob<1000>(); break; case 5: blob<1024>(); break; case 6: blob<4095>(); break; case 7: blob<4097>(); break; case 8: blob<65535>(); break; case 9: blob<65536>(); break; case 10: blob<65537>(); break; case 11: blob<1000003>(); break; } }
// Blocks longer than a narrow count, however they are given back.
template <class T> static void large_blocks(size_t n, size_t how)
{
	on = true;
	switch (how) {
	case 0: { A<T> a; T* p = a.allocate(n); memset((void*)p, 0x5a, sizeof(T) * n); touch(p); a.deallocate(p, n); break; }
	case 1: { std::vector<T, A<T>> v(n, el<T>::v(3)); touch(v.data()); break; }
	case 2: { std::vector<T, A<T>> v; for (size_t i = 0; i < n; i++) v.push_back(el<T>::v((int)(i & 15))); touch(v.data()); break; }
	case 3: { std::vector<T, A<T>> v(n, el<T>::v(3)), w(n / 2 + 1, el<T>::v(5)); w = v; v.resize(1); v.shrink_to_fit(); touch(v.data()); touch(w.data()); v = std::move(w); break; }
	}
	clean("a large block", 1); uint64_t h = mc::hmix(mc::hmix(sizeof(T), n), how); mc::transition(); mc::state(h); mc::outcome(h); mc::nontrivial();
}
MC_HARNESS(large_allocations)
{
	static const size_t sizes[] = { 127, 128, 255, 256, 257, 1000, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 1048577 }; size_t n = mc::pick(sizes), how = mc::choose(4), type = mc::choose(3);
	mc::job();
	if (type == 0) large_blocks<char>(n, how); else if (type == 1) large_blocks<int64_t>(n, how); else large_blocks<big>(n, how);
}

// Ownership of a pointer passed to a function that may keep, free or replace it.
static int made, gone; struct item { int id; item(int i = 0) : id(i) { made++; } ~item() { gone++; } };
struct boom {};
template <class U, class D> static void refs(size_t action, size_t how, size_t initial, bool thrown, D del)
{
	made = gone = 0; const bool array = std::is_array_v<U>;
	auto fresh = [&](int id) { item* p = array ? new item[2] : new item; p->id = id; return p; }; auto drop = [&](item* p) { if (array) delete[] p; else delete p; };
	{
		std::unique_ptr<U, D> own(initial ? fresh(1) : nullptr, del); const item* before = own.get(); int want = initial;
		auto callee = [&](item*& p) {
			MC_CHECK(p == before && !own, "memory.ref", "the callee got another pointer or the owner still has it");
			switch (action) { case 0: break; case 1: drop(p); p = nullptr; want = 0; break; case 2: drop(p); p = fresh(2); want = 2; break; case 3: if (p) p->id = 3, want = 3; break; }
			if (thrown) throw boom();
		};
		try {
			if (how == 0) { auto f = [&](item** p) { callee(*p); }; f(stdex::get_ptr(own)); }
			else if (how == 1) { auto f = [&](item*& p) { callee(p); }; f(stdex::get_ptr(own)); }
			else { auto r = stdex::get_ptr(own); auto s = std::move(r); auto t = std::move(s); callee(static_cast<item*&>(t)); MC_CHECK(!*static_cast<item**>(r) && !*static_cast<item**>(s), "memory.ref", "a moved-from helper holds the pointer"); }
			MC_CHECK(!thrown, "memory.ref", "an exception was lost");
		} catch (const boom&) { MC_CHECK(thrown, "memory.ref", "an exception from nowhere"); }
		MC_CHECK(want ? own && own.get()->id == want : !own, "memory.ref", "action %zu: the owner does not have the pointer the callee left", action);
	}
	MC_CHECK(made == gone, "memory.ref", "action %zu: %d objects were made and %d deleted", action, made, gone);
}
MC_HARNESS(out_pointers)
{
	size_t action = mc::choose(4), how = mc::choose(3), initial = mc::choose(2), form = mc::choose(2), thrown = mc::choose(2);
	mc::job();
	if (form) refs<item[]>(action, how, initial, thrown, std::default_delete<item[]>()); else refs<item>(action, how, initial, thrown, std::default_delete<item>());
	made = gone = 0; { item x; { auto s = stdex::make_shared_no_delete(&x); auto t = s; MC_CHECK(s.get() == &x && t.use_count() == 2, "memory.no_delete", "count"); std::unique_ptr<item, stdex::no_delete<item>> u(&x); } MC_CHECK(!gone, "memory.no_delete", "the object was deleted"); }
	uint64_t h = action + how * 4 + initial * 12 + form * 24 + thrown * 48; mc::transition(); mc::state(h); mc::outcome(h); mc::nontrivial();
}
// What is done when a scope exits, in every order of nested scopes and however they are left.
MC_HARNESS(scopes)
{
	size_t depth = 1 + mc::choose(4), fail_init = mc::choose(depth + 1), leave = mc::choose(3); 
	mc::job();
	std::string log, want; log.reserve(100); std::string big(64, 'x');
	std::function<void(size_t)> scope; 
	auto body = [&](auto&& self, size_t k) -> int {
		if (k == depth) { log += "body "; if (leave == 1) throw boom(); return 1; }
		char id = (char)('0' + k); std::string held = big + id; // the lambda owns what it needs
		stdex::scoped_executor e([&] { log += "+"; log += id; log += ' '; if (k + 1 == fail_init) throw boom(); }, [&log, held, id] { log += held == std::string(64, 'x') + id ? "-" : "?"; log += id; log += ' '; });
		volatile char noise[512]; for (size_t i = 0; i < sizeof noise; i++) noise[i] = (char)i; // reuses the stack of temporaries
		if (leave == 2 && k + 1 == depth) { log += "body "; return 1; }
		return self(self, k + 1);
	};
	try { body(body, 0); } catch (const boom&) {}
	size_t up = fail_init ? fail_init : depth; for (size_t k = 0; k < up; k++) want += mc::str("+%zu ", k); if (!fail_init) want += "body "; for (size_t k = fail_init ? fail_init - 1 : depth; k-- > 0;) want += mc::str("-%zu ", k);
	MC_CHECK(log == want, "memory.scope", "%s instead of %s", log.c_str(), want.c_str());
	uint64_t h = depth * 16 + fail_init * 3 + leave; mc::transition(depth); mc::state(h); mc::outcome(h); mc::nontrivial();
}
