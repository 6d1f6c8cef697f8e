// P07: HTTP messages and JSON strings: what is matched, where its parts are and what they mean.
#include "pwords.h"
using namespace pw;
typedef std::vector<std::string> S;
static size_t L(size_t quick) { return mc::thorough() ? quick + 1 : quick; }

// --- the reference: what a text begins with, written as pc::dump() writes it
static std::string iv(const char* n, const Iv& i) { pc::Out o; o.iv(n, i); return o.s; }
static std::string num(const char* n, long long v) { pc::Out o; o.num(n, v); return o.s; }
struct M { Iv i; std::string in; explicit operator bool() const { return (bool)i; } std::string as(const char* n) const { return iv(n, i) + "{" + in + "}"; } };
static bool blank(char c) { return c && strchr(" \t\r\n\v\f", c); }
static char at(const std::string& s, size_t p) { return p < s.size() ? s[p] : 0; }
static size_t lb(const std::string& s, size_t p) { return at(s, p) == '\r' ? at(s, p + 1) == '\n' ? 2 : 0 : at(s, p) == '\n'; }
static Iv space(const std::string& s, size_t p) // any white space but a line break alone
{
	size_t e = p; while (blank(at(s, e))) ++e;
	return e == p || e - p == lb(s, p) ? Iv() : Iv(p, e);
}
static size_t skip(const std::string& s, size_t p) { Iv i = space(s, p); return i ? i.end : p; }
static size_t blanks(const std::string& s, size_t p) { while (blank(at(s, p))) ++p; return p; }
static size_t line(const std::string& s, size_t p) { while (blank(at(s, p)) && !lb(s, p)) ++p; return p; } // within the line
static Iv until(const std::string& s, size_t p, const char* stop) { size_t e = p; while (e < s.size() && (unsigned char)s[e] >= 0x20 && s[e] != 0x7f && s[e] != ' ' && !strchr(stop, s[e])) ++e; return Iv(p, e); }
static Iv some(const Iv& i) { return i.end > i.start ? i : Iv(); }
static M token(const std::string& s, size_t p) { return { some(until(s, p, "()<>@,;:\\\"/[]?={}")), "" }; }
static M quoted(const std::string& s, size_t p)
{
	if (at(s, p) == '"') for (size_t e = p + 1; at(s, e); ++e) {
		if (s[e] == '"') return { Iv(p, e + 1), iv("content", Iv(p + 1, e)) };
		if (s[e] == '\\') { if (!at(s, ++e)) break; }
		else if (blank(s[e]) ? !space(s, e) : (unsigned char)s[e] < 0x20) break;
	}
	return { Iv(), iv("content", Iv()) };
}
static M value(const std::string& s, size_t p)
{
	M q = quoted(s, p), t; if (!q) t = token(s, p);
	return { q ? q.i : t.i, q.as("string") + t.as("token") };
}
static M nothing_value() { return value("", 0); }
static M pair(const std::string& s, size_t p, M name) // what follows the name
{
	if (name) {
		size_t e = skip(s, name.i.end);
		if (at(s, e) == '=') { M v = value(s, skip(s, e + 1)); if (v) return { Iv(p, v.i.end), name.as("name") + v.as("value") }; }
	}
	return { Iv(), M().as("name") + nothing_value().as("value") };
}
static M parameter(const std::string& s, size_t p) { return pair(s, p, token(s, p)); }
static M cookie_parameter(const std::string& s, size_t p) { return pair(s, p, at(s, p) == '$' ? token(s, p + 1) : M()); }
template <class F> static M with_params(const std::string& s, M m, F param)
{
	for (;;) {
		size_t e = skip(s, m.i.end);
		if (at(s, e) != ';') return m;
		M x = param(s, skip(s, e + 1));
		if (!x) return m;
		m.i.end = x.i.end; m.in += x.as("p");
	}
}
static M cookie(const std::string& s, size_t p) { M m = parameter(s, p); return m ? with_params(s, m, cookie_parameter) : m; }
static M any_type(const std::string& s, size_t p) { return { lit(s, p, "*/*") ? Iv(p, p + 3) : lit(s, p, "*"), "" }; }
static M asterisk(const std::string& s, size_t p) { return { lit(s, p, "*"), "" }; }
static M media_range(const std::string& s, size_t p)
{
	M t = token(s, p);
	if (t) { size_t e = skip(s, t.i.end); if (at(s, e) == '/') { M u = token(s, skip(s, e + 1)); if (u) return { Iv(p, u.i.end), t.as("type") + u.as("subtype") }; } }
	return { Iv(), M().as("type") + M().as("subtype") };
}
static M media_type(const std::string& s, size_t p) { M m = media_range(s, p); return m ? with_params(s, m, parameter) : m; }
static M server(const std::string& s, size_t p) { return { some(until(s, p, ":/")), "" }; }
static M port(const std::string& s, size_t p)
{
	Iv i = digits(s, p); size_t z = p; while (at(s, z) == '0') ++z;
	if (i && (i.end > z + 5 || dec(s, i) > 65535)) i = Iv();
	return { i, num("v", (long long)dec(s, i)) };
}
static M segment(const std::string& s, size_t p) { return { until(s, p, "?/"), "" }; }
static M path(const std::string& s, size_t p)
{
	M m; size_t e = p;
	while (at(s, e) == '/') { M g = segment(s, e + 1); m.in += iv("seg", g.i); e = g.i.end; }
	if (e > p) m.i = Iv(p, e);
	return m;
}
static M url_parameter(const std::string& s, size_t p)
{
	Iv n = some(until(s, p, "&=")), v;
	if (n && at(s, n.end) == '=') v = until(s, n.end + 1, "&");
	return { n ? Iv(p, v ? v.end : n.end) : Iv(), iv("name", n) + iv("value", v) };
}
static M uri(const std::string& s, size_t p)
{
	M sv, po = { Iv(), num("v", 80) }, pa; size_t e = p; std::string ps;
	std::string h = s.substr(std::min(p, s.size()), 7); for (auto& c : h) c = (char)tolower(c);
	if (h == "http://") {
		sv = server(s, e + 7); if (!sv) return {};
		e = sv.i.end;
		if (at(s, e) == ':') { po = port(s, e + 1); e = po ? po.i.end : e + 1; }
	}
	pa = path(s, e); if (!pa) return {};
	e = pa.i.end;
	if (at(s, e) == '?') for (++e;;) {
		if (at(s, e) == '&') { ++e; continue; }
		M x = url_parameter(s, e); if (!x) break;
		ps += x.as("p"); e = x.i.end;
	}
	return { Iv(p, e), iv("server", sv.i) + po.as("port") + pa.as("path") + ps };
}
static M language(const std::string& s, size_t p)
{
	M m; size_t e = p;
	for (;;) { size_t b = e; while (isalpha((unsigned char)at(s, e))) ++e; if (b == e) break; m.i = Iv(p, e); m.in += iv("c", Iv(b, e)); if (at(s, e) != '-') break; ++e; }
	return m;
}
static M weight(const std::string& s, size_t p)
{
	size_t e = p; while (isdigit((unsigned char)at(s, e))) ++e;
	if (at(s, e) == '.') { ++e; while (isdigit((unsigned char)at(s, e))) ++e; }
	float v = e > p ? (float)strtod(("0" + s.substr(p, e - p)).c_str(), nullptr) : 1;
	pc::Out o; o.real("v", v);
	return { e > p ? Iv(p, e) : Iv(), o.s };
}
template <class F, class A> static M weighted(const std::string& s, size_t p, F val, A any, double* q = nullptr)
{
	M a = any(s, p), v = a ? val("", 0) : val(s, p), w = weight("", 0);
	if (!a && !v) return {};
	size_t e = a ? a.i.end : v.i.end, k = blanks(s, e);
	if (at(s, k) == ';') {
		k = blanks(s, k + 1);
		if (at(s, k) == 'q' || at(s, k) == 'Q') {
			k = blanks(s, k + 1);
			if (at(s, k) == '=') { M f = weight(s, blanks(s, k + 1)); if (f) { w = f; e = f.i.end; } }
		}
	}
	if (q) *q = w ? strtod(("0" + s.substr(w.i.start, w.i.end - w.i.start)).c_str(), nullptr) : 1;
	return { Iv(p, e), a.as("*") + v.as("v") + w.as("q") };
}
static M weighted_language(const std::string& s, size_t p) { return weighted(s, p, language, asterisk); }
static M weighted_token(const std::string& s, size_t p) { return weighted(s, p, token, asterisk); }
static M weighted_media(const std::string& s, size_t p) { return weighted(s, p, media_range, any_type); }
static M agent(const std::string& s, size_t p)
{
	size_t e = p; while (at(s, e) && s[e] != '/' && !blank(s[e])) ++e;
	Iv t(p, e), v;
	if (at(s, e) == '/') { v.start = ++e; while (at(s, e) && !blank(s[e])) ++e; v.end = e; }
	if (e == p) t = Iv();
	return { some(Iv(p, e)), iv("type", t) + iv("version", v) };
}
static M protocol(const std::string& s, size_t p)
{
	Iv t, a, i; size_t e = p;
	while (at(s, e) && s[e] != '/' && !blank(s[e])) ++e;
	if (at(s, e) == '/') {
		t = Iv(p, e); size_t b = ++e;
		while (at(s, e) && s[e] != '.' && !blank(s[e])) ++e;
		a = Iv(b, e);
		if (at(s, e) == '.') { b = ++e; while (at(s, e) && !blank(s[e])) ++e; i = Iv(b, e); }
		if (blank(at(s, e))) {
			auto n = [&](const Iv& x) { return x ? strtoul(s.substr(x.start, x.end - x.start).c_str(), nullptr, 10) : 0; };
			return { Iv(p, e), iv("type", t) + iv("maj", a) + iv("min", i) + num("v", (uint16_t)(n(a) * 256 + n(i))) };
		}
	}
	return { Iv(), iv("type", Iv()) + iv("maj", Iv()) + iv("min", Iv()) + num("v", 9) };
}
static M request(const std::string& s, size_t p)
{
	size_t b = line(s, p), e = b; while (at(s, e) && !blank(s[e])) ++e;
	if (e == b || !at(s, e) || lb(s, e)) return {};
	M u = uri(s, line(s, e)); if (!u) return {};
	size_t k = line(s, u.i.end); M pr = protocol("", 0);
	if (lb(s, k)) k += lb(s, k);
	else {
		M x = protocol(s, k);
		if (x) { pr = x; for (k = x.i.end; at(s, k) && !lb(s, k); ++k); k += lb(s, k); }
	}
	return { Iv(p, k), iv("verb", Iv(b, e)) + u.as("url") + pr.as("proto") };
}
static M header(const std::string& s, size_t p)
{
	if (!at(s, p) || blank(s[p])) return {};
	size_t e = p; while (at(s, e) && s[e] != ':' && !blank(s[e])) ++e;
	Iv n(p, e), v; e = line(s, e);
	if (at(s, e) != ':') return {};
	for (++e; at(s, e);) {
		if (size_t n = lb(s, e)) { e += n; if (!blank(at(s, e)) || lb(s, e)) break; continue; }
		if (!blank(s[e])) { if (!v) v.start = e; v.end = e + 1; }
		++e;
	}
	if (!v) v = Iv();
	return { Iv(p, e), iv("name", n) + iv("value", v) };
}
template <class P> static void words(const char* key, const S& tok, size_t len, M (*ref)(const std::string&, size_t))
{
	size_t n = mc::choose(len + 2); std::string s; Fin fin; P p;
	if (n <= len) {
		for (size_t i = 0; i + 2 < n; ++i) { s += mc::pick(tok); if (i == 0) mc::job(); }
		if (n < 3) mc::job();
	}
	auto go = [&](const std::string& w) {
		M m = ref(w, 0);
		const BoundText<char> t(w);
		bool ok = p.match(t.data(), 0, t.size());
		std::string got = ok ? pc::dumped<char>(&p) : "no match", want = m ? m.as("") : "no match";
		MC_CHECK(got == want && ok == (p.interval.start <= p.interval.end), key, "%s: %s instead of %s", q(w).c_str(), got.c_str(), want.c_str());
		fin.see(ok, m.i.end);
	};
	if (n > len) long_words(tok, go); else last(tok, n, len, s, go);
	mc::state(mc::hash(s, n)); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
}
using namespace stdex::parser;
#define HTTP(name, P, len, ref, ...) MC_HARNESS(name) { words<P>("http." #name, S __VA_ARGS__, L(len), ref); }
static M text_char(const std::string& s, size_t p)
{
	Iv i = space(s, p);
	return { i ? i : at(s, p) && !blank(s[p]) && (unsigned char)s[p] >= 0x20 ? Iv(p, p + 1) : Iv(), "" };
}
static M line_break(const std::string& s, size_t p) { return { some(Iv(p, p + lb(s, p))), "" }; }
static M white(const std::string& s, size_t p) { return { space(s, p), "" }; }
static const S tokens{ "a", "-", "(", ")", "<", ">", "@", ",", ";", ":", "\\", "\"", "/", "[", "]", "?", "=", "{", "}", " ", "\t", "\r", "\n", "\v", "\xe9", "\x1f", "\x7f", "!", "~", "*" };
HTTP(line_break, http_line_break, 6, line_break, { "\r", "\n", " ", "a", "\t" })
HTTP(space, http_space, 6, white, { "\r", "\n", " ", "a", "\t", "\v" })
HTTP(text_char, http_text_char, 4, text_char, { "\r", "\n", " ", "a", "\t", "\x1f", "\xe9", "\x01" })
HTTP(token, http_token, 4, token, { tokens })
HTTP(quoted_string, http_quoted_string, 7, quoted, { "\"", "\\", "a", " ", "\r", "\n", "\x01" })
HTTP(value, http_value, 6, value, { "\"", "\\", "a", " ", "=", ";" })
HTTP(parameter, http_parameter, 7, parameter, { "a", "=", "\"", " ", "\r\n", ";" })
HTTP(any_type, http_any_type, 6, any_type, { "*", "/", "a" })
HTTP(media_range, http_media_range, 7, media_range, { "a", "/", "*", " ", ";", "\r\n" })
HTTP(media_type, http_media_type, 8, media_type, { "a", "/", ";", "=", "\"", " " })
HTTP(media_params, http_media_type, 7, media_type, { "a/b", ";", "c=d", "e=\"f;\"", " ", "\r\n", "c" })
HTTP(url_server, http_url_server, 5, server, { "a", ":", "/", " ", ".", "\x1f", "\x7f", "\xe9" })
HTTP(url_port, http_url_port, 7, port, { "0", "6", "5", "553", "a" })
HTTP(url_path, http_url_path, 7, path, { "a", "/", "?", " ", "\xe9" })
HTTP(url_parameter, http_url_parameter, 6, url_parameter, { "a", "=", "&", " ", "\x7f", "?" })
HTTP(url, http_url, 5, uri, { "http://", "HTTP://", "a", ":", "80", "99999", "/", "?", "=", "&", " " })
HTTP(url_query, http_url, 7, uri, { "/a", "?", "b", "=", "&", "/", " " })
HTTP(language, http_language, 7, language, { "a", "sl", "-", "1", ",", "Z" })
HTTP(weight, http_weight, 7, weight, { "0", "1", ".", "5", "a" })
HTTP(weighted_language, http_weighted_value<http_language>, 6, weighted_language, { "sl", "-", "*", ";", "q", "=", "0.5", " " })
HTTP(weighted_token, http_weighted_value<http_token>, 6, weighted_token, { "a", "*", ";", "q", "Q", "=", "0.5", " " })
HTTP(weighted_media, pc::media_weighted, 6, weighted_media, { "a/b", "*/*", "*", ";", "q", "=", "0.5", "\t" })
HTTP(cookie_parameter, http_cookie_parameter, 7, cookie_parameter, { "$", "a", "=", "\"", " ", ";" })
HTTP(cookie, http_cookie, 7, cookie, { "$", "a", "=", "\"", " ", ";" })
HTTP(cookie_params, http_cookie, 7, cookie, { "a=b", ";", "$c=d", "$", "e=\"f;\"", " ", "\n" })
HTTP(agent, http_agent, 7, agent, { "a", "/", "1", " ", "\n" })
HTTP(protocol, http_protocol, 6, protocol, { "HTTP", "/", "1", ".", " ", "\r\n", "a", "255" })
HTTP(request, http_request, 6, request, { "GET", " ", "/", "\r", "\n", "HTTP/1.1", "a", "?" })
HTTP(header, http_header, 7, header, { "A", ":", " ", "\r\n", "b", "\n", "\r" })

// a list of values is kept by descending weight, in the order given
template <class C, class F> static void collection(const char* key, const S& elements, F ref)
{
	static const char* const seps[] = { ",", ", ", " ,", " , ", "\t,\n" };
	size_t n = mc::choose(mc::thorough() ? 5 : 4); std::string s; std::vector<std::pair<double, std::string>> want;
	const char* sep = mc::pick(seps);
	for (size_t i = 0; i < n; ++i) {
		if (i) s += sep; else if (mc::flip()) s += " ";
		size_t p = s.size(); s += mc::pick(elements);
		double w; M m = ref(s, p, &w);
		want.push_back({ w, m.as("") });
		if (i == 1) mc::job();
	}
	if (n < 2) mc::job();
	static const char* const tails[] = { "", " ", ",", ";x", ",," };
	std::string z = s + mc::pick(tails);
	std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first > b.first; });
	for (int zero = 0; zero < 2; ++zero) {
		C c; c.insert(z.c_str(), 0, zero ? SIZE_MAX : z.size());
		std::string a, b; for (auto x : c) a += pc::dumped<char>(&x) + "\n"; for (auto& x : want) b += x.second + "\n";
		MC_CHECK(a == b, key, "%s: %s instead of %s", q(z).c_str(), a.c_str(), b.c_str());
	}
	// only what is in range
	for (size_t e = 0; e <= z.size(); ++e) {
		std::string cut = z.substr(0, e); C c, d; c.insert(z.c_str(), 0, e); d.insert(cut.c_str());
		std::string a, b; for (auto x : c) a += pc::dumped<char>(&x) + "\n"; for (auto x : d) b += pc::dumped<char>(&x) + "\n";
		MC_CHECK(a == b, key, "%s up to %zu: %s instead of %s", q(z).c_str(), e, a.c_str(), b.c_str());
	}
	mc::state(mc::hash(z)); mc::outcome(mc::hash(z)); mc::transition(n + 1); if (n > 1) mc::nontrivial();
}
MC_HARNESS(languages)
{
	collection<http_weighted_collection<http_weighted_value<http_language>>>("http.languages", { "sl", "en-us;q=0.5", "*;q=0.1", "de ; q = 0.5", "fr;q=1", "*", "it;q=0" }, [](const std::string& s, size_t p, double* w) { return weighted(s, p, language, asterisk, w); });
}
MC_HARNESS(media_ranges)
{
	collection<http_weighted_collection<pc::media_weighted>>("http.media_ranges", { "a/b", "a/*;q=0.5", "*/*;q=0.1", "c/d ; q = 0.5", "*/*", "e/f;q=0.9" }, [](const std::string& s, size_t p, double* w) { return weighted(s, p, media_range, any_type, w); });
}
MC_HARNESS(encodings)
{
	collection<http_weighted_collection<http_weighted_value<http_token>>>("http.encodings", { "gzip", "br;q=0.5", "*;q=0", "deflate ; Q=0.5", "x-a;q=0.75" }, [](const std::string& s, size_t p, double* w) { return weighted(s, p, token, asterisk, w); });
}

// --- JSON strings
template <class T> static void put(std::basic_string<T>& v, uint32_t c)
{
	if (sizeof(T) == 2 && c > 0xffff) { v += (T)(0xd7c0 + (c >> 10)); v += (T)(0xdc00 + (c & 0x3ff)); }
	else if (sizeof(T) > 1) v += (T)c;
	else if (c < 0x80) v += (T)c;
	else if (c < 0x800) { v += (T)(0xc0 | c >> 6); v += (T)(0x80 | (c & 63)); }
	else if (c < 0x10000) { v += (T)(0xe0 | c >> 12); v += (T)(0x80 | (c >> 6 & 63)); v += (T)(0x80 | (c & 63)); }
	else { v += (T)(0xf0 | c >> 18); v += (T)(0x80 | (c >> 12 & 63)); v += (T)(0x80 | (c >> 6 & 63)); v += (T)(0x80 | (c & 63)); }
}
static bool unit(const std::string& s, size_t p, uint32_t& v)
{
	if (s.compare(p, 2, "\\u") || s.size() < p + 6) return false;
	v = 0;
	for (size_t i = p + 2; i < p + 6; ++i) { if (!isxdigit((unsigned char)s[i])) return false; v = v * 16 + (uint32_t)(isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); }
	return true;
}
template <class T> static Iv json(const std::string& s, std::basic_string<T>& v)
{
	v.clear();
	if (at(s, 0) != '"') return Iv();
	for (size_t p = 1; p < s.size();) {
		uint32_t a, b;
		if (s[p] == '"') return Iv(0, p + 1);
		if (s[p] == '\\') {
			static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
			if (const char* f = at(s, p + 1) ? strchr(from, s[p + 1]) : nullptr) { v += (T)to[f - from]; p += 2; continue; }
			if (unit(s, p, a)) {
				p += 6;
				if (a >> 10 == 0x36 && p <= s.size() && unit(s, p, b) && b >> 10 == 0x37) { a = 0x10000 + ((a & 0x3ff) << 10 | (b & 0x3ff)); p += 6; }
				put(v, a); continue;
			}
		}
		v += (T)(unsigned char)s[p++];
	}
	v.clear();
	return Iv();
}
static const S json_tokens{ "\"", "\\", "u", "00e9", "2028", "D83d", "de0A", "n", "/", "a", "\n", "b" };
MC_HARNESS(json_strings)
{
	WORDS(json_tokens, L(6), false, l.json(), {
		std::string t = "\"" + s;
		std::basic_string<T> v;
		Iv i = json(t, v);
		match<T>("json.string", p, t, i, fin);
		MC_CHECK(p->value == v, "json.string", "%s: a value of %zu instead of %zu", q(t).c_str(), p->value.size(), v.size());
	});
}
// every character after the escape character, as the first, a later and the last one
template <class T> static void json_escapes(uint32_t c)
{
	pc::Leaf<T> l{ false };
	auto p = l.json();
	for (size_t before = 0; before < 3; ++before) for (size_t after = 0; after < 3; ++after) for (size_t cut = 0; cut < 2; ++cut) {
		std::string a(before, 'n'), b(after, 'n'), t = "\"" + a + "\\" + (char)c + b + "\"";
		auto w = pc::W<T>(t); if (w[before + 2] != (T)c) w[before + 2] = (T)c;
		static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
		std::basic_string<T> v(before, 'n'); const char* f = c && c < 128 ? strchr(from, (int)c) : nullptr;
		size_t n = cut ? w.size() - 1 : w.size();
		if (f) v += (T)to[f - from]; else { v += (T)'\\'; v += (T)c; }
		v.append(after, 'n');
		bool ok = p->match(w.data(), 0, n);
		MC_CHECK(ok == !cut && (cut || (p->interval.start == 0 && p->interval.end == n && p->value == v)), "json.escape", "character %x escaped, %zu before, %zu behind%s: %d, ends at %zd, %zu in the value", (unsigned)c, before, after, cut ? ", no end" : "", ok, (ssize_t)p->interval.end, p->value.size());
		mc::transition();
	}
}
MC_HARNESS(json_escapes)
{
	uint32_t c = 1 + (uint32_t)mc::choose(0x7ff); mc::job();
	if (c < 256) json_escapes<char>(c);
	json_escapes<wchar_t>(c); json_escapes<char16_t>(c);
	mc::state(c); mc::outcome(c); mc::nontrivial();
}
template <class T> static void json_block(uint32_t from)
{
	pc::Leaf<T> l{ false };
	auto p = l.json();
	std::string text = "\""; std::basic_string<T> v;
	for (uint32_t c = from; c < from + 0x400; ++c) {
		char b[16];
		if (c < 0x10000) snprintf(b, sizeof b, c & 1 ? "\\u%04x" : "\\u%04X", c); else snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd7c0 + (c >> 10), 0xdc00 + (c & 0x3ff));
		text += b; put(v, c);
	}
	text += "\"";
	const auto w = pc::W<T>(text);
	MC_CHECK(p->match(w.data(), 0, w.size()) && p->interval.end == w.size() && p->value == v, "json.character", "characters from U+%04X", from);
	mc::outcome(mc::hash(v.data(), v.size() * sizeof(T)));
}
MC_HARNESS(json_characters)
{
	uint32_t from = (uint32_t)mc::choose(0x440) * 0x400; mc::job();
	json_block<char>(from); json_block<wchar_t>(from); json_block<char16_t>(from);
	mc::state(from); mc::transition(0x800); mc::nontrivial();
}
