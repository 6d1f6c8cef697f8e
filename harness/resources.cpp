// U09: what is acquired from a library is released exactly once. The libraries are replaced by ones that keep count and refuse on request.
#include "mc.h"
#include <memory>
#include <stdex/compat.hpp>
#include <stdex/curl.hpp>
#include <stdex/locale.hpp>
#include <stdex/socket.hpp>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <errno.h>
#include <string.h>

struct library {
	std::set<void*> live; std::set<void*> dead; std::set<int> fds; int next = 1000; int opened = 0, closed = 0, refused = 0, bad = 0; long flags = 0; const char* kind = ""; bool faults = false; int level = 0; std::string newest;
	void* make() { void* p = malloc(64); memset(p, 0, 64); live.insert(p); dead.erase(p); opened++; return p; }
	void drop(void* p, const char* by)
	{
		MC_CHECK(live.count(p), "released", "%s() of %s", by, !p ? "nothing" : dead.count(p) ? "what was released before" : "something else"); MC_CHECK(!strcmp(kind, by), "released.by", "%s() instead of %s()", by, kind);
		live.erase(p); dead.insert(p); closed++; // (the memory stays: an address is never given out twice)
	}
};
static library* L;
struct in_use { in_use(library& l) { L = &l; } ~in_use() { L = nullptr; } };
extern "C" {
	void curl_easy_cleanup(CURL* p) { L->drop(p, "curl_easy_cleanup"); }
	void curl_slist_free_all(struct curl_slist* p) { L->drop(p, "curl_slist_free_all"); }
	CURLcode curl_global_init(long f) { L->flags = f; if (L->faults && mc::choose_dev(2)) { L->refused++; return CURLE_FAILED_INIT; } L->level++; return CURLE_OK; }
	void curl_global_cleanup(void) { L->level--; MC_CHECK(L->level >= 0, "curl.cleanup", "curl_global_cleanup() more often than curl_global_init() succeeded"); }
	const char* curl_easy_strerror(CURLcode c) { static std::string s[200]; auto& r = s[(unsigned)c % 200]; r = mc::str("error %u", (unsigned)c); return r.c_str(); }
	void __wrap_freeaddrinfo(struct addrinfo* p) { L->drop(p, "freeaddrinfo"); }
	void __real_freelocale(locale_t);
	void __wrap_freelocale(locale_t p) { if (L) L->drop(p, "freelocale"); else __real_freelocale(p); }
	int __real_close(int);
	int __wrap_close(int fd)
	{
		if (!L || strcmp(L->kind, "close")) return __real_close(fd);
		MC_CHECK(L->fds.count(fd), "released", "close(%d) of no open socket", fd); L->fds.erase(fd); L->closed++;
		static const int codes[] = { 0, EBADF, EIO, EINTR }; size_t k = L->faults ? mc::choose_dev(4) : 0; if (k) { L->refused++; L->bad += k > 1; errno = codes[k]; return -1; }
		return 0;
	}
}
// Two owners; every sequence of acquiring, moving, exchanging, giving up and abandoning.
template <class P> static void owners(const char* by, size_t depth)
{
	library l; in_use u(l); l.kind = by;
	{
		P a, b, *o[2] = { &a, &b }; void* has[2] = {};
		for (size_t i = 0; i < depth; i++) {
			size_t op = mc::choose(14), x = op % 2, y = 1 - x; op /= 2; if (i == 1) mc::job();
			P &p = *o[x], &q = *o[y]; typedef typename P::pointer R;
			switch (op) {
			case 0: { void* n = l.make(); p.reset((R)n); has[x] = n; break; }
			case 1: p.reset(); has[x] = nullptr; break;
			case 2: q = std::move(p); has[y] = has[x]; has[x] = nullptr; break;
			case 3: std::swap(p, q); std::swap(has[0], has[1]); break;
			case 4: { R r = p.release(); P t(r); MC_CHECK((void*)t.get() == has[x], "owned", "released something else"); has[x] = nullptr; break; }
			case 5: { P t(std::move(p)); p = std::move(t); break; }
			case 6: try { void* n = l.make(); P t((R)n); throw 1; } catch (int) {} break;
			}
			size_t live = 0; for (size_t k = 0; k < 2; k++) { MC_CHECK((void*)o[k]->get() == has[k], "owned", "owner %zu has something else", k); if (has[k]) { live++; MC_CHECK(l.live.count(has[k]), "owned", "owner %zu has what was released", k); } }
			MC_CHECK(l.live.size() == live, "leak", "%zu live, %zu owned", l.live.size(), live); mc::transition(1);
		}
		mc::state((has[0] != nullptr) + 2 * (has[1] != nullptr)); if (l.opened > 1) mc::nontrivial();
	}
	MC_CHECK(l.live.empty(), "leak", "%zu never released", l.live.size()); MC_CHECK(l.opened == l.closed, "released", "%d acquired, %d released", l.opened, l.closed);
	for (auto p : l.dead) free(p); mc::outcome(l.opened);
}
static size_t depth() { return mc::thorough() ? 6 : 5; }
MC_HARNESS(addresses) { owners<stdex::addrinfo>("freeaddrinfo", depth()); }
MC_HARNESS(system_addresses) { owners<stdex::saddrinfo>("freeaddrinfo", depth() - 1); }
MC_HARNESS(curl_handles) { owners<stdex::curl>("curl_easy_cleanup", depth()); }
MC_HARNESS(curl_lists) { owners<stdex::curl_slist>("curl_slist_free_all", depth()); }
MC_HARNESS(locales) { owners<stdex::locale>("freelocale", depth()); }

// Sockets: also with close() failing.
MC_HARNESS(sockets)
{
	library l; in_use u(l); l.kind = "close"; mc::set_deviation_bound(2);
	auto open = [&] { l.fds.insert(l.next); l.opened++; return l.next++; };
	{
		std::unique_ptr<stdex::socket> o[2]; struct calm { library& l; ~calm() { l.faults = false; } } c{ l }; int has[2] = { -1, -1 };
		for (size_t i = 0, n = mc::thorough() ? 6 : 5; i < n; i++) {
			size_t op = mc::choose(10), x = op % 2, y = 1 - x; op /= 2; if (i == 1) mc::job();
			int bad = l.bad; bool threw = false; l.faults = op != 2;
			try {
				switch (op) {
				case 0: if (!o[x]) { int s = open(); o[x].reset(new stdex::socket(s)); has[x] = s; } break;
				case 1: if (o[x]) { has[x] = -1; o[x]->close(); } break;
				case 2: if (o[x]) { if (o[y]) *o[y] = std::move(*o[x]); else o[y].reset(new stdex::socket(std::move(*o[x]))); has[y] = has[x]; has[x] = -1; } break;
				case 3: if (o[x]) { has[x] = -1; delete o[x].release(); } break;
				case 4: if (o[x]) { auto& r = *o[x]; r = std::move(r); } else { o[x].reset(new stdex::socket()); } break;
				}
			} catch (const std::system_error& e) { threw = true; MC_CHECK(e.code().value() == EIO || e.code().value() == EINTR, "socket.error", "reports %d", e.code().value()); }
			MC_CHECK(threw == (l.bad > bad), "socket.throws", "%s", threw ? "an exception for no reason" : "close() fails and nobody is told");
			size_t live = 0; for (size_t k = 0; k < 2; k++) { int h = o[k] ? o[k]->get() : -1; MC_CHECK(h == has[k] && (!o[k] || (bool)*o[k] == (h != -1)), "socket.owned", "socket %zu is %d instead of %d", k, h, has[k]); live += h != -1; if (h != -1) MC_CHECK(l.fds.count(h), "socket.owned", "socket %zu is closed", k); }
			MC_CHECK(l.fds.size() == live, "leak", "%zu open, %zu owned", l.fds.size(), live); mc::transition(1);
		}
		l.faults = false; mc::state((o[0] ? 1 + (has[0] >= 0) : 0) * 3 + (o[1] ? 1 + (has[1] >= 0) : 0)); if (l.opened > 1) mc::nontrivial();
	}
	MC_CHECK(l.fds.empty() && l.opened == l.closed, "leak", "%zu sockets open at the end", l.fds.size()); mc::outcome(l.opened * 10 + l.refused);
}
// cURL initialization, nested, and refused at any place; its errors.
MC_HARNESS(curl_library)
{
	library l; in_use u(l); l.faults = true; mc::set_deviation_bound(3);
	std::unique_ptr<stdex::curl_initializer> o[3];
	for (size_t i = 0; i < 5; i++) {
		size_t x = mc::choose(3); if (i == 1) mc::job();
		int up = l.level, refused = l.refused;
		if (o[x]) { o[x].reset(); MC_CHECK(l.level == up - 1, "curl.cleanup", "not cleaned up"); }
		else {
			bool threw = false; long f = (long)(i * 3 + x);
			try { o[x].reset(new stdex::curl_initializer(f)); } catch (const stdex::curl_runtime_error& e) { threw = true; MC_CHECK(e.number() == CURLE_FAILED_INIT && strstr(e.what(), "error 2"), "curl.error", "reports %d: %s", (int)e.number(), e.what()); }
			MC_CHECK(threw == (l.refused > refused), "curl.init", "initialization %s", threw ? "throws for no reason" : "is refused silently"); MC_CHECK(l.flags == f, "curl.init", "flags %ld instead of %ld", l.flags, f); MC_CHECK(l.level == up + !threw, "curl.init", "initialized %d times", l.level - up);
		}
		mc::transition(1);
	}
	int live = 0; for (auto& p : o) live += !!p; MC_CHECK(l.level == live, "curl.init", "initialized %d times for %d", l.level, live); mc::state(live); mc::outcome(l.refused * 4 + live); if (live) mc::nontrivial();
	for (auto& p : o) p.reset(); MC_CHECK(!l.level, "curl.cleanup", "%d left", l.level);

}
MC_HARNESS(curl_errors)
{
	unsigned c = (unsigned)mc::choose(100); static const char* const msgs[] = { "", "a", "some: message" }; std::string m = mc::pick(msgs), e = mc::str("error %u", c);
	mc::job();
	stdex::curl_runtime_error a((CURLcode)c), b((CURLcode)c, m), d((CURLcode)c, m.c_str()); const std::runtime_error& r = b;
	MC_CHECK(a.number() == (CURLcode)c && b.number() == (CURLcode)c && d.number() == (CURLcode)c, "curl.error", "number of %u", c); MC_CHECK(a.what() == e && r.what() == m + ": " + e && d.what() == m + ": " + e, "curl.error", "%s / %s / %s", a.what(), b.what(), d.what());
	auto f(b); m = "other"; MC_CHECK(!strcmp(f.what(), b.what()) && f.number() == b.number(), "curl.error", "a copy differs"); mc::transition(4); mc::state(c); mc::outcome(mc::hash(std::string(b.what()))); mc::nontrivial();
}
// A locale of one category: everything the C library says about that category is as asked, and a name there is none of gives none.
#include <langinfo.h>
MC_HARNESS(categories)
{
	static const int cats[] = { LC_ALL, LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC, LC_TIME }; static const char* const names[] = { "C", "POSIX", "C.UTF-8", "C.utf8", "", "no_SUCH", "en_US.NONE" };
	int c = mc::pick(cats); const char* n = mc::pick(names);
	mc::job();
	static const int masks[] = { LC_ALL_MASK, LC_COLLATE_MASK, LC_CTYPE_MASK, LC_MESSAGES_MASK, LC_MONETARY_MASK, LC_NUMERIC_MASK, LC_TIME_MASK }; int mask = 0; for (size_t i = 0; i < 7; i++) if (cats[i] == c) mask = masks[i];
	locale_t want = newlocale(mask, n, (locale_t)0); stdex::locale got(c, n);
	MC_CHECK(!want == !got, "locale", "category %d of %s: %s", c, n, got ? "found" : "none");
	if (want) {
		static const nl_item items[] = { CODESET, RADIXCHAR, THOUSEP, YESEXPR, D_T_FMT, DAY_1, CRNCYSTR }; static const int of[] = { LC_CTYPE, LC_NUMERIC, LC_NUMERIC, LC_MESSAGES, LC_TIME, LC_TIME, LC_MONETARY };
		for (size_t i = 0; i < 7; i++) if (c == LC_ALL || c == of[i]) MC_CHECK(!strcmp(nl_langinfo_l(items[i], want), nl_langinfo_l(items[i], got)), "locale", "category %d of %s: item %zu is %s", c, n, i, nl_langinfo_l(items[i], got));
		if (c == LC_ALL || c == LC_CTYPE) for (wint_t w = 0; w < 0x3000; w++) MC_CHECK(!iswalpha_l(w, want) == !iswalpha_l(w, got) && towupper_l(w, want) == towupper_l(w, got), "locale", "category %d of %s: U+%04X", c, n, (unsigned)w);
		freelocale(want);
	}
	mc::transition(1); mc::state(c * 16 + (n[0] & 15)); mc::outcome(c * 2 + !!want); mc::nontrivial();
}
