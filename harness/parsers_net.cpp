// P04: addresses, names and URLs: the longest text that reads as one is matched, and taken apart as it reads.
#include "pwords.h"
#include <arpa/inet.h>
using namespace pw;
typedef std::vector<std::string> S;
static size_t L(size_t quick) { return mc::thorough() ? quick + 2 : quick + 1; }
static bool isd(char c) { return c >= '0' && c <= '9'; }
static bool isan(char c) { return isd(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

// --- whole texts that are addresses or names
struct V4 { Iv c[4]; uint32_t v = 0; };
static bool is_v4(const std::string& s, size_t a, size_t b, V4* r = nullptr)
{
	size_t p = a; V4 t;
	for (int i = 0; i < 4; ++i) {
		if (i) { if (p >= b || s[p] != '.') return false; ++p; }
		size_t q = p; while (q < b && isd(s[q])) ++q;
		if (q == p) return false;
		size_t z = p; while (z < q && s[z] == '0') ++z;
		if (q - z > 3 || dec(s, Iv(p, q)) > 255) return false;
		t.c[i] = Iv(p, q); t.v = t.v << 8 | (uint32_t)dec(s, t.c[i]); p = q;
	}
	if (r) *r = t;
	return p == b;
}
struct V6 { Iv c[8]; unsigned w[8]; };
static bool is_v6(const std::string& s, size_t a, size_t b, V6* r = nullptr)
{
	std::vector<std::pair<Iv, unsigned>> g; size_t gap = SIZE_MAX, p = a;
	if (b >= a + 2 && s[a] == ':' && s[a + 1] == ':') { gap = 0; p = a + 2; }
	while (p < b || gap != g.size()) {
		size_t q = p; unsigned v = 0; bool big = false;
		while (q < b && isxdigit((unsigned char)s[q]) && !(s[q] >= 'A' && s[q] <= 'F')) { v = v * 16 + (unsigned)(isd(s[q]) ? s[q] - '0' : s[q] - 'a' + 10); if (v > 0xffff) big = true; ++q; }
		if (q == p || big) return false;
		g.push_back({ Iv(p, q), v }); p = q;
		if (p == b) break;
		if (s[p] != ':') return false;
		++p;
		if (p < b && s[p] == ':') { if (gap != SIZE_MAX) return false; gap = g.size(); ++p; }
		else if (p == b) return false;
	}
	if (gap == SIZE_MAX ? g.size() != 8 : g.size() > 7) return false;
	if (r) {
		size_t n = g.size();
		for (size_t i = 0, k = 0; i < 8; ++i) {
			if (gap != SIZE_MAX && i >= gap && i < 8 - (n - gap)) { r->c[i].invalidate(); r->w[i] = 0; }
			else { r->c[i] = g[k].first; r->w[i] = g[k].second; ++k; }
		}
	}
	return true;
}
static bool is_dns(const std::string& s, size_t a, size_t b, bool absolute)
{
	size_t p = a;
	for (int labels = 0;; ++labels) {
		if (p == b) return labels && absolute;
		if (labels == 127) return false;
		size_t q = p; while (q < b && (isan(s[q]) || s[q] == '-')) ++q;
		if (q == p || s[p] == '-' || s[q - 1] == '-') return false;
		if (q == b) return true;
		if (s[q] != '.') return false;
		p = q + 1;
	}
}
static const size_t pumps = pw::pumps = 15; // the references try every length
template <class F> static Iv longest(const std::string& s, size_t p, F f) { for (size_t e = s.size(); p <= s.size() && e > p; --e) if (f(e)) return Iv(p, e); return Iv(); }
static Iv v4(const std::string& s, size_t p) { return longest(s, p, [&](size_t e) { return is_v4(s, p, e); }); }
static Iv scope(const std::string& s, size_t p) { size_t q = p; while (q < s.size() && (isan(s[q]) || s[q] == '-' || s[q] == '_' || s[q] == ':')) ++q; return q > p ? Iv(p, q) : Iv(); }
static Iv v6(const std::string& s, size_t p, Iv* sc = nullptr)
{
	Iv i = longest(s, p, [&](size_t e) { return is_v6(s, p, e); }); Iv z = i && lit(s, i.end, "%") ? scope(s, i.end + 1) : Iv();
	if (z) i.end = z.end; if (sc) *sc = z; return i;
}
static Iv dns(const std::string& s, size_t p, bool absolute = true) { return longest(s, p, [&](size_t e) { return is_dns(s, p, e, absolute); }); }
static Iv chars(const std::string& s, size_t p, const char* more) { size_t q = p; while (q < s.size() && (isan(s[q]) || strchr(more, s[q]))) ++q; return q > p ? Iv(p, q) : Iv(); }
static Iv user(const std::string& s, size_t p) { return chars(s, p, "-._~%!$&'*+,;="); }
static Iv pass(const std::string& s, size_t p) { return chars(s, p, "-._~%!$&'()*+,;=:"); }
struct Path { Iv all, path, query, mark; };
static Path path(const std::string& s, size_t p)
{
	Path r; r.all = chars(s, p, "/-._~%!$&'()*+,;=:@?#");
	if (!r.all) return r;
	std::string t = s.substr(0, r.all.end); size_t h = std::min(t.find('#', p), t.size()), m = std::min(t.find('?', p), h);
	r.path = Iv(p, m); if (m < h) r.query = Iv(m + 1, h); if (h < t.size()) r.mark = Iv(h + 1, t.size());
	return r;
}
struct Host { Iv v4, v6, dns; size_t end = 0; explicit operator bool() const { return v4 || v6 || dns; } };
static Host host(const std::string& s, size_t p, bool bracket_v4)
{
	Host h; Iv b = lit(s, p, "[");
	if (bracket_v4) { if (b && (h.v4 = ::v4(s, b.end)) && lit(s, h.v4.end, "]")) { h.end = h.v4.end + 1; return h; } h.v4.invalidate(); }
	else if ((h.v4 = ::v4(s, p))) { h.end = h.v4.end; return h; }
	if (b && (h.v6 = ::v6(s, b.end)) && lit(s, h.v6.end, "]")) { h.end = h.v6.end + 1; return h; }
	h.v6.invalidate();
	if ((h.dns = ::dns(s, p))) h.end = h.dns.end;
	return h;
}

MC_HARNESS(ipv4)
{
	WORDS((S{ "0", "1", "25", "256", ".", "a" }), L(7), true, l.ip4(), {
		Iv w = v4(s, 0); V4 r; if (w) is_v4(s, 0, w.end, &r);
		if (match<T>("net.ipv4", p, s, w, fin)) {
			for (int i = 0; i < 4; ++i) MC_CHECK(eq(p->components[i], r.c[i]), "net.ipv4", "%s: component %d is %s", q(s).c_str(), i, sh(p->components[i]).c_str());
			in_addr a; std::string t = s.substr(0, w.end);
			MC_CHECK(ntohl(p->value.s_addr) == r.v && (inet_pton(AF_INET, t.c_str(), &a) != 1 || a.s_addr == p->value.s_addr), "net.ipv4", "%s: %08x", q(s).c_str(), ntohl(p->value.s_addr));
		} else MC_CHECK(!p->value.s_addr, "net.ipv4", "%s: value %08x without a match", q(s).c_str(), ntohl(p->value.s_addr));
	});
}
MC_HARNESS(ipv4_values)
{
	// every octet in every place
	size_t at = mc::choose(4), k = mc::choose(3); mc::job();
	auto all = [&](auto l, auto z) { typedef decltype(z) T; auto p = l.ip4(); for (unsigned o = 0; o < 1000; ++o) {
		std::string s; for (size_t i = 0; i < 4; ++i) s += (i ? "." : "") + std::to_string(i == at ? o : 10 + i);
		Fin fin; Iv w = v4(s, 0); V4 r; if (w) is_v4(s, 0, w.end, &r);
		MC_CHECK((o < 256) == (w.end == s.size()), "net.ipv4", "reference");
		if (match<T>("net.ipv4", p, s, w, fin)) MC_CHECK(ntohl(p->value.s_addr) == r.v, "net.ipv4", "%s: %08x", q(s).c_str(), ntohl(p->value.s_addr));
	} };
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(at * 3 + k); mc::outcome(at); mc::nontrivial();
}
template <class P> static void check_v6(P& p, const std::string& s, Iv w, const Iv& z)
{
	size_t e = z ? z.start - 1 : w.end; V6 r; is_v6(s, 0, e, &r);
	for (int i = 0; i < 8; ++i) {
		unsigned v = (unsigned)p->value.s6_addr[2 * i] << 8 | p->value.s6_addr[2 * i + 1]; auto& c = p->components[i];
		MC_CHECK(v == r.w[i], "net.ipv6", "%s: word %d is %x instead of %x", q(s).c_str(), i, v, r.w[i]);
		MC_CHECK(r.c[i] ? eq(c, r.c[i]) : c.start == c.end && c.start <= e, "net.ipv6", "%s: component %d is %s instead of %s", q(s).c_str(), i, sh(c).c_str(), sh(r.c[i]).c_str());
	}
	in6_addr a; std::string t = s.substr(0, e);
	if (inet_pton(AF_INET6, t.c_str(), &a) == 1) MC_CHECK(!memcmp(&a, &p->value, sizeof a), "net.ipv6", "%s: not as inet_pton reads it", q(s).c_str());
	part("net.ipv6", s, "scope", p->scope_id, z);
}
MC_HARNESS(ipv6)
{
	WORDS((S{ "1", "ab", ":", "::", "%", "g", "fffff" }), L(6), true, l.ip6(), {
		Iv z; Iv w = v6(s, 0, &z);
		if (match<T>("net.ipv6", p, s, w, fin)) check_v6(p, s, w, z);
	});
}
MC_HARNESS(ipv6_groups)
{
	// any number of groups, zeros left out anywhere, and other text after
	size_t n = mc::choose(11), gap = mc::choose(n + 2), tail = mc::choose(8), k = mc::choose(3); mc::job();
	static const char* const tails[] = { "", ":", "::", ":1", "%", "%eth0:1", "x", "::1" };
	std::string s; for (size_t i = 0; i < n; ++i) { if (i == gap) s += "::"; else if (i) s += ':'; char b[8]; snprintf(b, sizeof b, "%zx", (i + 1) * 0x1230 + i); s += i == 3 ? "0" : b; }
	if (gap == n) s += "::";
	s += tails[tail];
	auto all = [&](auto l, auto z) { typedef decltype(z) T; auto p = l.ip6(); Fin fin; Iv c; Iv w = v6(s, 0, &c); if (match<T>("net.ipv6", p, s, w, fin)) { check_v6(p, s, w, c); mc::nontrivial(); } auto r = l.ip6(false); if (c) { w.end = c.start - 1; } match<T>("net.ipv6", r, s, w, fin); };
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(mc::hash(s, k)); mc::outcome(mc::hash(s));
}
MC_HARNESS(dns_names)
{
	WORDS((S{ "a", "9", "Z-", "-", ".", " ", "_" }), L(6), true, std::make_pair(l.dns(), l.dns(false)), { match<T>("net.dns_name", p.first, s, dns(s, 0), fin); match<T>("net.dns_name", p.second, s, dns(s, 0, false), fin); });
}
MC_HARNESS(dns_long)
{
	size_t n = 120 + mc::choose(12), tail = mc::choose(3), k = mc::choose(3), abs = mc::choose(2); mc::job();
	std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += '.'; s += "ab"; } if (tail == 1) s += '.'; if (tail == 2) s += "-";
	auto all = [&](auto l, auto z) { typedef decltype(z) T; auto p = l.dns(abs); Fin fin; match<T>("net.dns_name", p, s, dns(s, 0, abs), fin); };
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(((n * 3 + tail) * 3 + k) * 2 + abs); mc::outcome(n * 3 + tail); mc::nontrivial();
}
MC_HARNESS(characters)
{
	// which characters may appear where, for every ASCII character
	size_t k = mc::choose(3); mc::job();
	auto all = [&](auto l, auto z) {
		typedef decltype(z) T; Fin fin;
		for (int c = 1; c < 128; ++c) {
			std::string s(1, (char)c); bool amp = c == '&' && false;
			if (amp) continue;
			auto one = [&](const char* key, pc::SP<T> p, bool yes) { match<T>(key, p, s, yes ? Iv(0, 1) : Iv(), fin); };
			one("net.scope_char", l.scope_char(), (bool)scope(s, 0)); one("net.user_char", l.user_char(), (bool)user(s, 0)); one("net.pass_char", l.pass_char(), (bool)pass(s, 0)); one("net.path_char", l.path_char(), (bool)path(s, 0).all);
			for (bool idn : { false, true }) { auto d = l.dns_char(idn); match<T>("net.dns_char", d, s, isan((char)c) || c == '-' ? Iv(0, 1) : Iv(), fin); if (d->interval) MC_CHECK(d->allow_on_edge == (c != '-'), "net.dns_char", "%s on the edge", q(s).c_str()); }
		}
	};
	if (k == pc::wide) all(pc::Leaf<wchar_t>{ false }, L'a'); else all(pc::Leaf<char>{ k == pc::sgml }, 'a');
	mc::state(k); mc::outcome(k); mc::nontrivial();
}
template <class P> static void check_path(const char* key, const std::string& s, const P& p, const Path& r)
{
	MC_CHECK(eq(p->interval, r.all) && eq(p->path, r.path) && eq(p->query, r.query) && eq(p->bookmark, r.mark), key, "%s: path %s, %s, %s instead of %s, %s, %s", q(s).c_str(), sh(p->path).c_str(), sh(p->query).c_str(), sh(p->bookmark).c_str(), sh(r.path).c_str(), sh(r.query).c_str(), sh(r.mark).c_str());
}
MC_HARNESS(url_paths)
{
	WORDS((S{ "/", "a", "?", "#", "=", " ", "@" }), L(6), true, l.url_path(), { Path r = path(s, 0); match<T>("net.url_path", p, s, r.all, fin); check_path("net.url_path", s, p, r); });
}
template <class T, class P> static void check_url(P& p, const std::string& s, Fin& fin)
{
	Iv sch[4]; size_t e = 0; static const char* const names[] = { "http", "ftp", "mailto", "file" }; int kind = -1;
	for (int i = 0; i < 4 && kind < 0; ++i) { Iv n = lit(s, 0, names[i]); Iv c = n ? lit(s, n.end, i == 2 ? ":" : "://") : Iv(); if (c) { sch[i] = n; e = c.end; kind = i; } }
	Iv u, w, port; Host h; Path pt; bool ok = true;
	if (kind == 3) { pt = path(s, e); if (pt.all) e = pt.all.end; }
	else {
		if (kind >= 0) {
			u = user(s, e); Iv at;
			if (u && kind != 2 && lit(s, u.end, ":") && (w = pass(s, u.end + 1)) && (at = lit(s, w.end, "@"))) e = at.end;
			else { w.invalidate(); if (u && (at = lit(s, u.end, "@"))) e = at.end; else { u.invalidate(); if (kind == 2) ok = false; } }
		}
		if (ok) { h = host(s, e, kind == 2); ok = (bool)h; if (ok) e = h.end; }
		if (ok && kind != 2) { if (lit(s, e, ":") && (port = digits(s, e + 1))) e = port.end; pt = path(s, e); if (pt.all) e = pt.all.end; }
	}
	if (!ok) { for (auto& x : sch) x.invalidate(); u.invalidate(); w.invalidate(); h = Host(); }
	const char* key = "net.url";
	match<T>(key, p, s, ok ? Iv(0, e) : Iv(), fin);
	part(key, s, "http", p->http_scheme, sch[0]); part(key, s, "ftp", p->ftp_scheme, sch[1]); part(key, s, "mailto", p->mailto_scheme, sch[2]); part(key, s, "file", p->file_scheme, sch[3]);
	part(key, s, "user", p->username, u); part(key, s, "password", p->password, w); part(key, s, "IPv4 host", p->ipv4_host, h.v4); part(key, s, "IPv6 host", p->ipv6_host, h.v6); part(key, s, "host name", p->dns_host, h.dns);
	part(key, s, "port", p->port, port); check_path(key, s, std::static_pointer_cast<stdex::parser::basic_url_path<T>>(p->path), pt);
}
MC_HARNESS(urls)
{
	WORDS((S{ "http", "ftp:", "//", "mailto:", "file:", ":", "@", "a", "b.c", "1.2.3.4", "[::1]", "8", "/", "?" }), mc::thorough() ? 6 : 5, true, l.url(), { check_url<T>(p, s, fin); });
}
MC_HARNESS(url_forms)
{
	// every combination of parts, each of them right, wrong or missing
	static const char* const A[] = { "", "http://", "ftp://", "mailto:", "file://", "http:/", "gopher://" }, * const U[] = { "", "u@", "u:p@", "u:p", "u:@", ":p@", "u:p:q@", "a.b;c=1@" }, * const H[] = { "", "h", "h.i.", "1.2.3.4", "[1.2.3.4]", "[fe80::1%e]", "[::1", "1.2.3.256", "-h" }, * const P[] = { "", ":", ":80", ":80a" }, * const Q[] = { "", "/", "/a?b#c", "?q", "#b", "~", "/a b" };
	size_t a = mc::choose(7), u = mc::choose(8), k = mc::choose(3); mc::job();
	bool multi = false;
	for (auto h : H) for (auto o : P) for (auto t : Q) {
		std::string s = std::string(A[a]) + U[u] + h + o + t; Fin fin;
		if (k == pc::wide) { auto p = pc::Leaf<wchar_t>{ false }.url(); check_url<wchar_t>(p, s, fin); } else { auto p = pc::Leaf<char>{ k == pc::sgml }.url(); check_url<char>(p, s, fin); }
		multi |= fin.any;
	}
	mc::state((a * 8 + u) * 3 + k); mc::outcome(a * 8 + u); if (multi) mc::nontrivial();
}
MC_HARNESS(emails)
{
	WORDS((S{ "a", ".", "@", "b.c", "1.2.3.4", "[", "]", "::1", "%e", " " }), mc::thorough() ? 6 : 5, true, l.email(), {
		Iv u = user(s, 0); Host h; if (u && lit(s, u.end, "@")) h = host(s, u.end + 1, true); if (!h) u.invalidate();
		const char* key = "net.email";
		match<T>(key, p, s, h ? Iv(0, h.end) : Iv(), fin);
		part(key, s, "user", p->username, u); part(key, s, "IPv4 host", p->ipv4_host, h.v4); part(key, s, "IPv6 host", p->ipv6_host, h.v6); part(key, s, "host name", p->dns_host, h.dns);
	});
}
