// U10: memory runs out. Texts: parsers, documents, conversions. Either the same result as ever, or the lack of memory is
// reported; what text was there stays in front; objects give the right result the next time; everything is released.
#include "oom.h"
#include <algorithm>
#include <chrono>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <system_error>
#include <vector>
#include <zlib.h>
#define malloc oom::c_malloc
#define realloc oom::c_realloc
#define free oom::c_free
#include "common.h"
#include "pcases.h"
#include <stdex/base64.hpp>
#include <stdex/chrono.hpp>
#include <stdex/hex.hpp>
#include <stdex/html.hpp>
#include <stdex/idrec.hpp>
#include <stdex/minisign.hpp>
#include <stdex/sgml.hpp>
#include <stdex/string.hpp>
#include <stdex/unicode.hpp>
#include <stdex/wav.hpp>
using namespace stdex::stream;
struct text_rec { const char* s; size_t n; };
static basic& operator<<(basic& s, const text_rec& t) { s.write(t.s, t.n / 2); if (s.ok()) s.write(t.s + t.n / 2, t.n - t.n / 2); return s; }
using stdex::charset_encoder; using stdex::charset_id;
typedef std::wstring W;
template <class T> static std::string q(const std::basic_string<T>& s) { std::string r; for (auto c : s) r += (char)c; return mc::quote(r.data(), r.size()); }

template <class T> static void parser_case(const pc::Case& c, pc::Leaf<T> l)
{
	std::vector<std::string> v = c.samples; for (auto& t : c.tokens) { v.push_back(t); for (auto& u : c.tokens) v.push_back(t + u); }
	if (c.samples.size() > 1 && !mc::thorough()) v.resize(std::min<size_t>(v.size(), c.samples.size() + c.tokens.size() * 2));
	if (v.empty()) { mc::job(); return; }
	const auto w = pc::W<T>(v[mc::choose(v.size())]); size_t how = mc::choose(2); mc::job(); mc::set_deviation_bound(1);
	std::string e, r; bool ok, eok, threw = false; size_t refused = 0;
	{ auto x = pc::make(c, l); eok = x->match(w.data(), 0, w.size()); e = eok ? pc::dumped<T>(x.get()) : ""; } // warms up, too
	{
		oom::track t;
		{
			pc::SP<T> x;
			if (how) { oom::arm a; try { x = pc::make(c, l); } catch (const std::bad_alloc&) { threw = true; } refused = oom::g_refused; MC_CHECK(threw == !!refused, mc::str("oom.%s.make", c.name), "making a parser with%s memory %s", refused ? "out" : "", threw ? "throws" : "does not throw"); }
			else {
				x = pc::make(c, l);
				{ oom::arm a; try { ok = x->match(w.data(), 0, w.size()); } catch (const std::bad_alloc&) { threw = true; } refused = oom::g_refused; }
				MC_CHECK(!threw || refused, mc::str("oom.%s.throws", c.name), "%s: matching throws although memory was there", q(w).c_str());
				if (!threw) { r = ok ? pc::dumped<T>(x.get()) : ""; MC_CHECK(ok == eok && r == e, mc::str("oom.%s.result", c.name), "%s: %s without memory instead of %s", q(w).c_str(), ok ? r.c_str() : "no match", eok ? e.c_str() : "no match"); }
				ok = x->match(w.data(), 0, w.size()); r = ok ? pc::dumped<T>(x.get()) : "";
				MC_CHECK(ok == eok && r == e, mc::str("oom.%s.again", c.name), "%s: %s after there was no memory, instead of %s", q(w).c_str(), ok ? r.c_str() : "no match", eok ? e.c_str() : "no match");
			}
			r.clear(); r.shrink_to_fit();
		}
		t.done("oom.leak", c.name);
	}
	mc::transition(); mc::state(mc::hash(e, mc::hash(c.name))); mc::outcome(mc::hmix(mc::hash(c.name), refused > 0)); if (refused) mc::nontrivial();
}
MC_HARNESS(parsers_oom)
{
	const char* only = getenv("CASE"); auto& all = pc::cases();
	const pc::Case& c = all[mc::choose(all.size())]; int kind = (int)mc::choose(3);
	if (!(c.kinds >> kind & 1) || (only && strcmp(only, c.name))) { mc::job(); return; }
	if (kind == pc::wide) parser_case<wchar_t>(c, { false }); else parser_case<char>(c, { kind == pc::sgml });
}

// Functions appending to a text (o), and what needs checking of the object they use.
struct Fn { const char* name; bool exact; std::function<void(std::string& o)> f; }; // exact: nothing may be appended unless all is
template <class T> static void narrow(std::string& o, const std::basic_string<T>& s) { for (T c : s) { o += (char)c; if (sizeof(T) > 1) o += (char)(c >> 8); } }
// appends to a text of another kind, which is shown whatever happens
template <class T, class F> static void appended(std::string& o, F f)
{
	std::basic_string<T> s; for (char c : o) s += (T)c;
	struct put { std::string& o; std::basic_string<T>& s; ~put() { oom::pause p; o.clear(); for (T c : s) { o += (char)c; } } } p{ o, s };
	f(s);
}
static std::string text(size_t n) { std::string s; while (s.size() < n) s += "A line of text, "; s.resize(n); return s; }
static const std::vector<Fn>& functions()
{
	static std::vector<Fn> v; if (!v.empty()) return v;
	static const std::string big = text(700), huge = text(5000), amp = [] { std::string s; for (int i = 0; i < 60; i++) s += "a &amp; b &eacute; <\"'>\xc3\xa9"; return s; }();
	static const W wamp = [] { W s; for (int i = 0; i < 60; i++) s += L"a &amp; b \x17e<\"'>"; return s; }(), wbig(big.begin(), big.end());
#define F(name, exact, ...) v.push_back(Fn{ name, exact, [](std::string& o) { __VA_ARGS__; } })
	F("appendf", false, stdex::appendf(o, "%s-%d", stdex::locale_C, "short text that fits the stack", 7));
	F("appendf, long", false, stdex::appendf(o, "%s-%d", stdex::locale_C, big.c_str(), 7));
	F("appendf, longer", false, stdex::appendf(o, "%s-%d", stdex::locale_C, huge.c_str(), 7));
	F("appendf, wide", false, appended<wchar_t>(o, [](W& s) { stdex::appendf(s, L"%d-%300d-%600d", stdex::locale_C, 7, 8, 9); }));
	F("sprintf", false, o += stdex::sprintf("%s+%d", stdex::locale_C, huge.c_str(), 7));
	F("strcatftime", false, struct tm t; memset(&t, 0, sizeof t); t.tm_year = 100; t.tm_mday = 1; stdex::strcatftime(o, "%Y-%m-%d", &t, stdex::locale_C));
	F("strcatftime, long", false, struct tm t; memset(&t, 0, sizeof t); t.tm_year = 100; t.tm_mday = 1; stdex::strcatftime(o, ("%Y-%m-%d " + huge).c_str(), &t, stdex::locale_C));
	F("aosn to_str", false, o += stdex::chrono::aosn_timestamp::to_str(stdex::chrono::aosn_timestamp::now() - stdex::chrono::aosn_timestamp::now().time_since_epoch(), ("%H:%M " + huge).c_str(), stdex::locale_C));
	F("crlf2nl", false, std::string s = "a\r\nb\r\nc and more than the short text"; stdex::crlf2nl(s); o += s);
	F("sgml2strcat, wide", false, appended<wchar_t>(o, [](W& s) { stdex::sgml2strcat(s, wamp.data(), wamp.size()); }));
	F("str2sgmlcat", false, stdex::str2sgmlcat(o, wamp.data(), wamp.size(), stdex::sgml_full));
	F("html escape", false, stdex::html::escape(o, amp.data(), amp.size()));
	F("html escape_min", false, stdex::html::escape_min(o, amp.data(), amp.size()));
	F("html escape, wide", false, appended<wchar_t>(o, [](W& s) { stdex::html::escape(s, wamp.data(), wamp.size()); }));
	F("url_escape", false, stdex::html::url_escape(o, amp.data(), amp.size()));
	F("url_unescape", false, std::string s; stdex::html::url_escape(s, amp.data(), amp.size()); stdex::html::url_unescape(o, s.data(), s.size()));
	F("css_escape", false, stdex::html::css_escape(o, amp.data(), amp.size()));
	F("css_unescape", false, std::string s; stdex::html::css_escape(s, amp.data(), amp.size()); stdex::html::css_unescape(o, s.data(), s.size()));
	F("base64", false, stdex::base64_enc e; e.encode(o, huge.data(), 1000));
	F("base64, wide", false, appended<wchar_t>(o, [](W& s) { stdex::base64_enc e; e.encode(s, huge.data(), 100); }));
	F("base64 decoding", false, static const std::string z = [] { std::string s; stdex::base64_enc e; e.encode(s, huge.data(), 1000); return s; }(); std::vector<uint8_t> b(o.begin(), o.end()); struct put { std::string& o; std::vector<uint8_t>& b; ~put() { oom::pause p; o.assign(b.begin(), b.end()); } } p{ o, b }; bool last; stdex::base64_dec d; d.decode(b, last, z.data(), z.size()));
	F("hex", false, stdex::hex_enc e; e.encode(o, huge.data(), 1000));
	F("hex decoding", false, std::string z; { stdex::hex_enc e; e.encode(z, huge.data(), 500); } std::vector<uint8_t> b(o.begin(), o.end()); struct put { std::string& o; std::vector<uint8_t>& b; ~put() { oom::pause p; o.assign(b.begin(), b.end()); } } p{ o, b }; bool last; stdex::hex_dec d; d.decode(b, last, z.data(), z.size()));
	F("charset", false, charset_encoder<char, char> e(charset_id::windows1250, charset_id::utf8); e.strcat(o, "\x9a\x9e\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8\xe8"));
	F("charset, long", false, charset_encoder<char, wchar_t> e(charset_id::utf8, charset_id::utf32); W s = e.convert(huge.c_str()); narrow(o, s));
	F("str2wstr", false, W s = stdex::str2wstr(huge, charset_id::utf8); narrow(o, s));
	F("wstr2str", false, o += stdex::wstr2str(wamp, charset_id::utf8));
	F("read_str", false, memory_file f; { oom::pause p; f << huge; f.seekbeg(0); } std::string s; f >> s; o += s);
	F("readln", false, ref_file f; { oom::pause p; f.data.assign(big.begin(), big.end()); f.data.push_back('\n'); } std::string s; f.readln(s); o += s);
	F("read_remainder", false, ref_file f; { oom::pause p; f.data.assign(big.begin(), big.end()); } auto b = f.read_remainder(); if (f.state() == state_t::fail) throw std::bad_alloc(); o.append(b.begin(), b.end()));
	F("write_sprintf", false, ref_file f; { oom::pause p; f.data.reserve(9000); } f.write_sprintf("%s-%d", stdex::locale_C, huge.c_str(), 5); { oom::pause p; o.append(f.data.begin(), f.data.end()); });
	F("skip", false, ref_file f; { oom::pause p; f.data.assign(huge.begin(), huge.end()); f.data.back() = '!'; } f.stdex::stream::basic::skip(huge.size() - 5); if (f.state() == state_t::fail) throw std::bad_alloc(); char b[5]; f.read_array(b, 1, 5); o.append(b, 5));
	F("write_byte", false, ref_file f; { oom::pause p; f.data.reserve(9000); } f.write_byte('-', 5000); if (f.state() == state_t::fail) throw std::bad_alloc(); { oom::pause p; o.append(f.data.begin(), f.data.end()); });
	F("record to a stream", false, ref_file f; { oom::pause p; f.data.reserve(9000); } text_rec t{ big.data(), big.size() }; (basic&)f << stdex::idrec::record<text_rec, uint32_t, 0x41414141, uint32_t, 4>(t); if (!f.ok()) throw std::bad_alloc(); { oom::pause p; o.append(f.data.begin(), f.data.end()); });
	F("minisig", true, static const std::string m = [] { std::string s("untrusted comment: made up for this\n"), b; stdex::base64_enc e; e.encode(b, "ED12345678" "0123456789012345678901234567890123456789012345678901234567890123", 74); return s + b + "\n"; }(); ref_file f; { oom::pause p; f.data.assign(m.begin(), m.end()); } uint8_t a, k[8], g[64]; stdex::minisign::parse_minisig(f, a, k, g); o += (char)a; o.append((char*)k, 8); o.append((char*)g, 64));
	F("readln, converted", false, ref_file f; { oom::pause p; f.data.assign(amp.begin(), amp.end()); f.data.push_back('\n'); } charset_encoder<char, wchar_t> e(charset_id::utf8, charset_id::utf32); W s; f.readln(s, e); narrow(o, s));
	F("readln attached, converted", false, ref_file f; { oom::pause p; f.data.assign({ 0x9a, 0x9e, '\r', '\n', 'x' }); } charset_encoder<char, char> e(charset_id::windows1250, charset_id::utf8); f.readln_and_attach(o, e));
	F("collections", true, static const bytes z = [] { memory_file m; (basic&)m << std::vector<std::string>{ "the first of two, too long to be kept within", "" } << std::set<std::string>{ "one", "another, and too long to be kept within" } << std::multiset<int>{ 1, 1, 2 }; return bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); }(); ref_file f; { oom::pause p; f.data = z; } std::vector<std::string> v; std::set<std::string> s; std::multiset<int> n; f >> v >> s >> n; if (!f.ok()) throw std::bad_alloc(); for (auto& x : v) o += x; for (auto& x : s) o += x; o += (char)('0' + n.size()));
	F("strdup", false, std::unique_ptr<char[]> d(stdex::strdup(big.c_str())), e(stdex::strndup(big.data(), 20)); if (!d || !e) throw std::bad_alloc(); o += d.get(); o += e.get());
	F("crlf2nl in place", false, std::string s; { oom::pause p; s = "a\r\nb\nc\r" + big + "\r\n"; } stdex::crlf2nl(s); o += s);
	F("write_stream", false, ref_file f; ref_file g; { oom::pause p; g.data.assign(big.begin(), big.end()); f.data.reserve(9000); } f.write_stream(g); { oom::pause p; o.append(f.data.begin(), f.data.end()); });
	F("document", true, stdex::html::document<wchar_t> d; static const W s = L"<!DOCTYPE html><html><head><title>T &amp; t</title><style>a { background: url(x.png) }</style></head><body><p class=\"x\" title='y'>One <b>two</b> &eacute;<br/><a href=\"http://x/?a=1&amp;b=2\">link</a><!-- comment --><script>if (a < b) c();</script><![CDATA[x]]></p><ul><li>1<li>2</ul></body></html>"; d.assign(s.data(), s.size()); stdex::html::parser<wchar_t> p(d); auto t = p.parse(); W r; stdex::html::parser<wchar_t>::link(r, t); narrow(o, r));
	F("document in pieces", true, stdex::html::document<wchar_t> d; static const W s = L"<p a=b c='d'>x<b>y</b>z &lt;</p><script>v</script>"; for (wchar_t c : s) d.append(&c, 1); d.append(L"", 0); W r; { oom::pause p; narrow(o, s); });
	F("cues", true, static const bytes f = [] {
			memory_file m; namespace w = stdex::wav; w::cue_vector c; for (uint32_t i = 0; i < 3; i++) { w::cue x; x.id = i + 1; x.position = i * 10; x.chunk_id = 0x61746164; c.push_back(x); }
			m << w::cue_vector_record(c); bytes adtl; auto start = m.tell(); (void)start;
			{ memory_file l; const char* id = "adtl"; l.write(id, 4); for (uint32_t i = 0; i < 3; i++) { w::label x; x.id = i + 1; x.title = "the title of a cue, longer than a short text"; l << w::label::record(x); } uint32_t n = (uint32_t)l.size(); m.write("LIST", 4); m << n; m.write(l.data(), (size_t)l.size()); }
			return bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); }();
		ref_file r; { oom::pause p; r.data = f; } stdex::wav::cue_ex_vector c; if (!stdex::wav::read_cues(r, c)) throw std::runtime_error("read_cues() fails"); for (auto& x : c) { o += x.title; o += (char)('0' + x.position); });
	F("WAV format", true, static const bytes f = [] { memory_file m; stdex::wav::format x; x.extra << big; m << stdex::wav::format::record(x); return bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); }();
		ref_file r; { oom::pause p; r.data = f; r.pos = 4; } stdex::wav::format x; r >> stdex::wav::format::record(x); if (!r.ok()) throw std::bad_alloc(); o.append((const char*)x.extra.data(), (size_t)x.extra.size()));
	F("WAV data", true, static const bytes f = [] { memory_file m; stdex::wav::data x; x.content << huge; m << stdex::wav::data::record(x); return bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); }();
		ref_file r; { oom::pause p; r.data = f; r.pos = 4; } stdex::wav::data x; r >> stdex::wav::data::record(x); if (!r.ok()) throw std::bad_alloc(); o.append((const char*)x.content.data(), (size_t)x.content.size()));
	F("WAV text", true, static const bytes f = [] { memory_file m; stdex::wav::ltxt x; x.description = big; stdex::wav::note y; y.note = huge; m << stdex::wav::ltxt::record(x) << stdex::wav::note::record(y); return bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); }();
		ref_file r; { oom::pause p; r.data = f; r.pos = 4; } stdex::wav::ltxt x; r >> stdex::wav::ltxt::record(x); r.seekcur(4); stdex::wav::note y; r >> stdex::wav::note::record(y); if (!r.ok()) throw std::bad_alloc(); o += x.description; o += y.note);
#undef F
	return v;
}
MC_HARNESS(functions_oom)
{
	auto& all = functions(); const Fn& f = all[mc::choose(all.size())]; size_t capacity = mc::choose(2); mc::job(); mc::set_deviation_bound(1);
	static const std::string before = "what was there before, too long to be kept within"; std::string e = before, o = before, again = before;
	f.f(e); bool threw = false; size_t refused;
	std::string why; why.reserve(200);
	if (capacity) o.reserve(o.size() * 2);
	{
		oom::track t;
		{
			std::string mine(o); if (capacity) mine.reserve(o.size() * 2);
			{ oom::arm a; try { f.f(mine); } catch (const std::bad_alloc&) { threw = true; } catch (const std::runtime_error& x) { oom::pause p; threw = true; if (!f.exact) why = x.what(); } refused = oom::g_refused; }
			MC_CHECK(!threw || refused, "oom.throws", "%s throws although memory was there", f.name);
			MC_CHECK(why.empty(), "oom.throws", "%s throws \"%s\" without memory", f.name, why.c_str());
			MC_CHECK(threw || mine == e, "oom.result", "%s without memory gives %s", f.name, mine.size() > 300 ? "something else" : q(mine).c_str());
			MC_CHECK(mine.size() <= e.size() && !e.compare(0, mine.size(), mine) && mine.size() >= before.size(), "oom.prefix", "%s without memory leaves %zu characters, %s", f.name, mine.size(), mine.compare(0, before.size(), before) ? "not those there before" : "wrong ones");
		}
		t.done("oom.leak", f.name);
	}
	f.f(again); MC_CHECK(again == e, "oom.again", "%s gives something else after there was no memory", f.name);
	mc::transition(); mc::state(mc::hash(f.name)); mc::outcome(mc::hmix(mc::hash(f.name), refused > 0)); if (refused) mc::nontrivial();
}
// One session converts on after the lack of memory; those with a shift state are where this shows.
template <class A, class B> static void session(const std::basic_string<A>& s, charset_id from, charset_id to)
{
	size_t in = mc::choose(2); mc::job(); mc::set_deviation_bound(1);
	std::basic_string<B> e, r; bool threw = false; size_t refused;
	{ charset_encoder<A, B> c(from, to); e = c.convert(s); }
	charset_encoder<A, B> c(from, to);
	{ oom::arm a; try { if (in) { c.strcat(r, s.data(), s.size()); } else r = c.convert(s); } catch (const std::bad_alloc&) { threw = true; } refused = oom::g_refused; }
	MC_CHECK(threw ? refused > 0 : r == e, "oom.session", "%s %s", refused ? "without memory" : "with memory", threw ? "throws" : "gives something else");
	r = c.convert(s); MC_CHECK(r == e, "oom.session", "a conversion gives something else after one without memory");
	r = c.convert(s.substr(0, 4)); { charset_encoder<A, B> d(from, to); MC_CHECK(r == d.convert(s.substr(0, 4)), "oom.session", "a conversion gives something else after one without memory"); }
	mc::transition(); mc::state(mc::hmix(refused, in)); mc::outcome(threw); if (refused) mc::nontrivial();
}
MC_HARNESS(charset_oom)
{
	W w; for (int i = 0; i < 900; i++) w += (wchar_t)(0x17e + i % 7); std::string u; for (wchar_t c : w) { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 0x3f)); }
	std::string u7; { charset_encoder<wchar_t, char> c(charset_id::utf32, charset_id::utf7); u7 = c.convert(w); }
	switch (mc::choose(4)) { case 0: session<wchar_t, char>(w, charset_id::utf32, charset_id::utf7); break; case 1: session<char, wchar_t>(u7, charset_id::utf7, charset_id::utf32); break; case 2: session<char, char>(u, charset_id::utf8, charset_id::utf7); break; case 3: session<char, wchar_t>(u, charset_id::utf8, charset_id::utf32); break; }
}
