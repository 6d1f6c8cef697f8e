// U07: reading Minisign signature files.
#include "common.h"
#include <stdex/minisign.hpp>

static std::string b64(const bytes& b)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s;
	for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); s += a[v >> 18]; s += a[v >> 12 & 63]; s += i + 1 < b.size() ? a[v >> 6 & 63] : '='; s += i + 2 < b.size() ? a[v & 63] : '='; }
	return s;
}
static bytes sig(size_t n, uint8_t first, uint8_t alg, size_t form) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = form == 0 ? (uint8_t)(i * 37 + 11) : form == 1 ? 0xff : (uint8_t)(i % 2 ? 0xfb : 0); if (n) b[0] = first; if (n > 1) b[1] = alg; return b; }
struct result { bool ok = false; uint8_t alg = 0, id[8], s[64]; };
static result parse(stdex::stream::basic& f) { struct { uint8_t g0[8], id[8], g1[8], s[64], g2[8]; } m; memset(&m, 0xee, sizeof m); result r; try { stdex::minisign::parse_minisig(f, r.alg, m.id, m.s); r.ok = true; } catch (const std::runtime_error&) {} memcpy(r.id, m.id, 8); memcpy(r.s, m.s, 64); for (auto g : { m.g0, m.g1, m.g2 }) for (int i = 0; i < 8; i++) MC_CHECK(g[i] == 0xee, "minisign.bounds", "wrote past the output"); return r; }
static void check(const std::string& text, const bytes* want, stdex::stream::basic& f)
{
	result r = parse(f); bool good = want && want->size() >= 74 && (*want)[0] == 'E';
	MC_CHECK(r.ok == good, "minisign.accept", "%s is %s", mc::quote(text.data(), text.size()).c_str(), r.ok ? "accepted" : "refused");
	MC_CHECK(!good || (r.alg == (*want)[1] && !memcmp(r.id, &(*want)[2], 8) && !memcmp(r.s, &(*want)[10], 64)), "minisign.content", "%s gives algorithm %02x key %s", mc::quote(text.data(), text.size()).c_str(), r.alg, mc::hex(r.id, 8).c_str());
	mc::transition(); mc::state(mc::hash(text)); mc::outcome(mc::hmix(mc::hash(text), r.ok)); if (r.ok) mc::nontrivial();
}
static void feed(const std::string& t, const bytes* want) { bytes d(t.begin(), t.end()); { ref_file f(d); check(t, want, f); } mc::set_deviation_bound(0); { short_source f(d, false); check(t, want, f); } }
// Every arrangement of comments, empty lines and signatures.
MC_HARNESS(arrangements)
{
	static const char* const before[] = { "", "untrusted comment: signature from minisign secret key", "untrusted comment:", "untrusted comment: RUQ" };
	size_t n = mc::choose(4); std::string nl = mc::flip() ? "\r\n" : "\n", t; for (size_t i = 0; i < n; i++) { t += mc::pick(before) + nl; }
	mc::job();
	static const size_t sizes[] = { 74, 0, 1, 73, 75, 76, 111 }; size_t len = mc::pick(sizes), end = mc::choose(4), form = mc::choose(3); uint8_t first = mc::flip() ? 'e' : 'E', alg = mc::flip() ? 'd' : 'D';
	bytes s = sig(len, first, alg, form), s2 = sig(74, 'E', 'x', 1); t += b64(s); if (end) t += nl; if (end == 2) t += "trusted comment: timestamp:1" + nl + b64(sig(64, 'E', 'D', 2)) + nl; if (end == 3) t += b64(s2) + nl;
	bool other = !len && end == 3, comment = !len && end == 2; // an empty line is no signature: the next one is
	feed(t, other ? &s2 : comment ? nullptr : &s);
}
// A file cut anywhere has no signature, unless the cut is past it.
MC_HARNESS(cut_short)
{
	std::string nl = mc::flip() ? "\r\n" : "\n", c = "untrusted comment: x" + nl, t = c + b64(sig(74, 'E', 'D', 0)) + nl + "trusted comment: y" + nl; size_t at = mc::choose(t.size() + 1);
	mc::job();
	bytes s = sig(74, 'E', 'D', 0); feed(t.substr(0, at), at >= c.size() + 100 ? &s : nullptr);
}
// A read error anywhere before the end of the signature line must not yield a signature.
MC_HARNESS(read_errors)
{
	std::string t = "untrusted comment: x\n" + b64(sig(mc::flip() ? 74 : 90, 'E', 'D', 0)) + "\ntrusted comment: y\n"; size_t len = t.find("\ntrusted") + 1, at = mc::choose(t.size() + 1); bool shorts = mc::flip();
	mc::job(); mc::set_deviation_bound(1);
	bytes d(t.begin(), t.end()); short_source f(d, shorts); f.fail_at = at; result r = parse(f);
	MC_CHECK(r.ok == (at >= len), "minisign.error", "a failure to read at %zu (of %zu to read) is %s", at, len, r.ok ? "ignored" : "reported");
	mc::transition(); mc::state(at); mc::outcome(at * 2 + r.ok); if (r.ok) mc::nontrivial();
}
// Every byte of the signature line replaced.
MC_HARNESS(replaced_characters)
{
	std::string s64 = b64(sig(74, 'E', 'D', 0)), t = "untrusted comment: x\n"; size_t at = mc::choose(s64.size() - 1); uint8_t c = (uint8_t)mc::choose(256);
	mc::job();
	static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; 
	if (c == '\n' || c == '\r' || c == '=') return; // how a padded group in the middle decodes is not claimed
	bool digit = c && a.find((char)c) != std::string::npos; s64[at] = (char)c; t += s64 + "\n"; bytes d(t.begin(), t.end()); ref_file f(d); result r = parse(f);
	if (digit) { bytes w(75); for (size_t i = 0; i < 25; i++) { uint32_t v = 0; for (int k = 0; k < 4; k++) { size_t p = a.find(s64[i * 4 + k]); v = v << 6 | (p == std::string::npos ? 0 : (uint32_t)p); } w[i * 3] = (uint8_t)(v >> 16); w[i * 3 + 1] = (uint8_t)(v >> 8); w[i * 3 + 2] = (uint8_t)v; }
		MC_CHECK(r.ok == (w[0] == 'E') && (!r.ok || (r.alg == w[1] && !memcmp(r.id, &w[2], 8) && !memcmp(r.s, &w[10], 64))), "minisign.content", "character %zu replaced with %02x", at, c); }
	else MC_CHECK(!r.ok, "minisign.accept", "a signature with %02x at %zu is accepted", c, at);
	mc::transition(); mc::state(at * 256 + c); mc::outcome(at * 256 + c); if (r.ok) mc::nontrivial();
}
// Lines of every length before and in place of the signature; long signatures and comments.
MC_HARNESS(lengths)
{
	static const size_t sizes[] = { 74, 75, 76, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 1000, 3071, 3072, 3073, 4095, 4096, 4097, 8192, 16385, 65535, 65536, 65537, 70000, 1000000 };
	size_t kind = mc::choose(4), v = mc::choose(sizeof sizes / sizeof *sizes), end = mc::choose(2); std::string nl = mc::flip() ? "\r\n" : "\n";
	mc::job(); bytes good = sig(74, 'E', 'D', 0);
	if (kind == 0) { bytes s = sig(sizes[v], 'E', 'D', 0); feed("untrusted comment: x" + nl + b64(s) + (end ? nl : ""), &s); }
	else if (kind == 1) { feed("untrusted comment: " + std::string(sizes[v], 'c') + nl + b64(good) + (end ? nl : ""), &good); }
	else if (kind == 2) { for (size_t n = 1; n <= 90; n += 1) { if (n % 23 != v % 23) continue; feed((end ? "untrusted comment: x" + nl : "") + std::string(n, v & 1 ? 'A' : 'u') + nl + b64(good) + nl, nullptr); } } // a line that is neither a comment nor a signature
	else { std::string t; for (size_t i = 0; i < sizes[v] && i < 5000; i++) t += i % 3 == 1 ? "untrusted comment: x" + nl : nl; feed(t + b64(good) + (end ? nl : ""), &good); }
}
// The two parsers of the file's pieces.
MC_HARNESS(pieces)
{
	const std::string u = "untrusted comment:"; size_t at = mc::choose(u.size() + 1), before = mc::choose(3); uint8_t c = (uint8_t)mc::choose(256);
	mc::job();
	std::string t = std::string(before, 'u') + u + " x"; if (at < u.size()) t[before + at] = (char)c;
	stdex::minisign::untrusted_comment p; stdex::minisign::line_break l;
	for (size_t start = 0; start <= t.size(); start++) for (size_t end = start; end <= t.size(); end++) {
		std::vector<char> e(t.begin(), t.begin() + end); bool want = end - start >= u.size() && t.compare(start, u.size(), u) == 0;
		bool got = p.match(e.data(), start, end); MC_CHECK(got == want && (got ? p.interval.start == start && p.interval.end == start + u.size() : !p.interval), "minisign.comment", "%s from %zu to %zu", t.c_str(), start, end);
	}
	static const char al[] = { '\r', '\n', 'a', '\0' };
	for (int k = 0; k < 64; k++) { std::string s = { al[k & 3], al[k >> 2 & 3], al[k >> 4 & 3] };
		for (size_t start = 0; start <= 3; start++) for (size_t end = start; end <= 3; end++) { std::vector<char> e(s.begin(), s.begin() + end); size_t w = end - start >= 2 && s[start] == '\r' && s[start + 1] == '\n' ? 2 : end > start && s[start] == '\n' ? 1 : 0; bool got = l.match(e.data(), start, end); MC_CHECK(got == (w > 0) && (got ? l.interval.start == start && l.interval.end == start + w : !l.interval), "minisign.line_break", "%s from %zu to %zu", mc::quote(s.data(), 3).c_str(), start, end); } }
	uint64_t h = at * 1000 + before * 256 + c; mc::transition(400); mc::state(h); mc::outcome(h); mc::nontrivial();
}
