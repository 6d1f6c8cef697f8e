// P09: HTML documents: what sequences there are, how they are related, the same in chunks; and tokens, which linked give the document back.
#include "html_ref.h"
#include <stdex/html.hpp>
typedef std::vector<std::string> S;
namespace html = stdex::html;
using html::element_t; typedef html::element_traits traits;
#ifdef SHORT // to run with memory checked
static size_t L(size_t quick) { return mc::thorough() ? quick : quick - 1; }
#else
static size_t L(size_t quick) { return mc::thorough() ? quick + 1 : quick; }
#endif

// what is found in a document
struct Seq { html_sequence_t type; Iv i, name; int code = 0; int parent = -1, end = -1, start = -1; };
struct Doc { std::vector<Seq> q; bool thrown = false; size_t charset = 0; };
static bool same(const Seq& a, const Seq& b) { return a.type == b.type && eq(a.i, b.i) && eq(a.name, b.name) && a.code == b.code && a.parent == b.parent && a.end == b.end && a.start == b.start; }
static std::string sh(const Seq& a) { return mc::str("%d@%s name %s code %d parent %d end %d start %d", (int)a.type, pw::sh(a.i).c_str(), pw::sh(a.name).c_str(), a.code, a.parent, a.end, a.start); }

// --- the reference
static bool nothing_in(element_t c) { return c == element_t::code || c == element_t::comment || c == element_t::script || c == element_t::style; }
static Doc expected(const std::string& s)
{
	Doc d; std::vector<int> open; std::vector<std::pair<std::string, std::string>> ents;
	size_t t = 0, p = 0; int in = 0, out = 0; html_sequence_t raw = html_sequence_t::unknown; bool only_end = false;
	auto add = [&](html_sequence_t type, size_t a, size_t b) -> Seq& { Seq q; q.type = type; q.i = Iv(a, b); q.parent = open.empty() ? -1 : open.back(); d.q.push_back(q); return d.q.back(); };
	auto text = [&](size_t e) { if (t < e) add(html_sequence_t::text, t, e); };
	auto rest = [&](Iv i) { return i ? Iv(i.start + p, i.end + p) : i; };
	auto expand = [&](const std::string& v) {
		std::string o;
		for (size_t i = 0; i < v.size();) {
			if (v[i] != '%') { o += v[i++]; continue; }
			bool found = false;
			for (auto& e : ents) if (v.compare(i + 1, e.first.size() + 1, e.first + ";") == 0) { o += e.second; i += e.first.size() + 2; found = true; break; }
			if (!found) throw std::runtime_error("");
		}
		return o;
	};
	try {
		while (p < s.size()) {
			if (raw != html_sequence_t::unknown) {
				if (!is(s, p, "]]>")) { ++p; continue; }
				add(raw, t, p); raw = html_sequence_t::unknown; t = p += 3; continue;
			}
			const std::string here = s.substr(p); auto c = ref::cond_start(here);
			if (out) {
				if (is(s, p, "]]>")) { --out; t = p += 3; }
				else if (c.i) { ++out; t = p += c.i.end; }
				else ++p;
				continue;
			}
			if (in && is(s, p, "]]>")) { text(p); --in; t = p += 3; continue; }
			if (c.i) {
				std::string v = expand(here.substr(c.content.start, c.content.size()));
				text(p); t = p += c.i.end;
				if (v == "CDATA") raw = html_sequence_t::CDATA; else if (v == "RCDATA") raw = html_sequence_t::PCDATA; else if (v == "IGNORE") ++out; else ++in;
				continue;
			}
			auto tag = ref::html_tag(here);
			if (only_end && !(tag.i && tag.type == html_sequence_t::element_end && (int)html::element::element_code(here.data() + tag.name.start, tag.name.size()) == d.q[open.back()].code)) { ++p; continue; }
			if (!tag.i) { ++p; continue; }
			text(p);
			const int me = (int)d.q.size(); Seq& q = add(tag.type, p, p + tag.i.end); q.name = rest(tag.name);
			auto name = [&](const Iv& i) { return s.substr(i.start, i.size()); };
			auto attr = [&](size_t i) { return here.substr(tag.attr[i].name.start, tag.attr[i].name.size()); };
			switch (tag.type) {
			case html_sequence_t::element: case html_sequence_t::element_start: {
				const element_t code = html::element::element_code(here.data() + tag.name.start, tag.name.size()); q.code = (int)code;
				while (!open.empty() && !traits::may_contain((element_t)d.q[open.back()].code, code)) { d.q[open.back()].end = me; open.pop_back(); }
				q.parent = open.empty() ? -1 : open.back();
				if (tag.type == html_sequence_t::element) break;
				if (traits::span(code) == html::element_span_t::immediate) q.end = me;
				else { open.push_back(me); only_end = nothing_in(code); }
				break;
			}
			case html_sequence_t::element_end: {
				q.code = (int)html::element::element_code(here.data() + tag.name.start, tag.name.size());
				int n = (int)open.size();
				while (n-- > 0) if (d.q[open[n]].code == q.code && (q.code != (int)element_t::unknown || !strcasecmp(name(d.q[open[n]].name).c_str(), name(q.name).c_str()))) break;
				if (n < 0) break;
				q.start = open[n]; q.parent = d.q[open[n]].parent;
				while ((int)open.size() > n) { d.q[open.back()].end = me; open.pop_back(); }
				only_end = false;
				break;
			}
			case html_sequence_t::declaration:
				if (tag.attr.size() > 3 && !strcasecmp(attr(0).c_str(), "entity") && attr(1) == "%" && attr(3) != "SYSTEM" && attr(3) != "PUBLIC") {
					size_t a = tag.attr[3].name.start; std::string v = attr(3);
					if (here[a] == '"' || here[a] == '\'') { size_t e = here.find(here[a], a + 1); if (e < tag.i.end) v = here.substr(a + 1, e - a - 1); }
					try { v = expand(v); } catch (...) { d.q.pop_back(); throw; }
					ents.push_back({ attr(2), v });
				}
				break;
			default:;
			}
			t = p += tag.i.end;
		}
		text(s.size());
	}
	catch (const std::runtime_error&) { d.thrown = true; }
	return d;
}

// --- the real one
template <class T> struct Document : html::document<T> {
	const html::sequence_store& all() const { return this->m_sequences; }
	stdex::charset_id charset() const { return this->m_charset; }
	Doc get() const
	{
		Doc d; std::map<const html::sequence*, int> at; int n = 0;
		for (auto& q : all()) at[q.get()] = n++;
		auto id = [&](const html::sequence* q) { return q ? at.count(q) ? at[q] : -2 : -1; };
		for (auto& p : all()) {
			Seq q; q.type = p->type; q.i = p->interval; q.parent = id(p->parent);
			switch (q.type) {
			case html_sequence_t::element_start: q.end = id(static_cast<html::element_start*>(p.get())->end); // fall through
			case html_sequence_t::element: { auto e = static_cast<html::element*>(p.get()); q.code = (int)e->code; q.name = e->name; break; }
			case html_sequence_t::element_end: { auto e = static_cast<html::element_end*>(p.get()); q.code = (int)e->code; q.name = e->name; q.start = id(e->start); break; }
			case html_sequence_t::declaration: q.name = static_cast<html::declaration*>(p.get())->name; break;
			case html_sequence_t::comment: q.name = static_cast<html::comment*>(p.get())->content; break;
			case html_sequence_t::instruction: q.name = static_cast<html::instruction*>(p.get())->content; break;
			default:;
			}
			d.q.push_back(q);
		}
		return d;
	}
};
template <class T> static Doc got(const std::string& s, const std::vector<size_t>& cuts = {})
{
	const auto w = pc::W<T>(s); Document<T> doc; bool thrown = false;
	try {
		if (cuts.empty()) doc.assign(w.data(), w.size());
		else {
			size_t a = 0;
			for (size_t c : cuts) { std::basic_string<T> x(w, a, c - a); doc.append(x.data(), x.size()); a = c; }
			std::basic_string<T> x(w, a); doc.append(x.data(), x.size());
			doc.finalize();
		}
	}
	catch (const std::runtime_error&) { thrown = true; }
	MC_CHECK(doc.source() == w, "html.source", "%s: source is kept as another text", q(s).c_str());
	Doc d = doc.get(); d.thrown = thrown; d.charset = (size_t)doc.charset(); return d;
}
static void compare(const char* key, const std::string& s, const Doc& want, const Doc& d, const char* how)
{
	MC_CHECK(want.thrown == d.thrown, key, "%s (%s): undefined entity is %s", q(s).c_str(), how, d.thrown ? "reported where there is none" : "not reported");
	for (size_t i = 0; i < want.q.size() && i < d.q.size(); ++i)
		MC_CHECK(same(want.q[i], d.q[i]), key, "%s (%s): sequence %zu is %s instead of %s", q(s).c_str(), how, i, sh(d.q[i]).c_str(), sh(want.q[i]).c_str());
	MC_CHECK(want.q.size() == d.q.size(), key, "%s (%s): %zu sequences instead of %zu", q(s).c_str(), how, d.q.size(), want.q.size());
}
static uint64_t fold(const Doc& d) { uint64_t h = d.thrown; for (auto& q : d.q) h = h * 131 + (int)q.type * 7 + q.parent + q.end * 3 + q.start * 5; return h; }
template <class A> static void docs(const S& tok, size_t len, A go)
{
	size_t n = mc::choose(len + 1); std::string s; Fin fin;
	for (size_t i = 0; i + 2 < n; ++i) { s += mc::pick(tok); if (i == 0) mc::job(); }
	if (n < 3) mc::job();
	if (n == 0) go(s, fin); else if (n == 1) for (auto& a : tok) go(s + a, fin); else for (auto& a : tok) for (auto& b : tok) go(s + a + b, fin);
	mc::state(mc::hash(s, n)); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
}
static void whole(const char* key, const std::string& s, Fin& fin, bool wide)
{
	Doc want = expected(s);
	compare(key, s, want, wide ? got<wchar_t>(s) : got<char>(s), wide ? "wide" : "narrow");
	fin.see(!want.q.empty(), (size_t)fold(want));
}
MC_HARNESS(structure)
{
	static const S tok{ "a", "<p>", "</p>", "<DIV>", "</div>", "<b>", "</b>", "<ul>", "</ul>", "<li>", "<br>", "<br/>", "<script>", "</Script>", "<x>", "</X>", "<y>", "</y>", "<table>", "<tbody>", "<tr>", "<td>", "</table>", "<h1>", "</h1>" };
	bool wide = mc::flip(); docs(tok, L(5), [&](const std::string& s, Fin& fin) { whole("html.structure", s, fin, wide); });
}
MC_HARNESS(sections)
{
	static const S tok{ "a", "<p>", "</p>", "<![CDATA[", "<![ RCDATA [", "<![IGNORE[", "<![INCLUDE[", "<![if x]>", "<![%x;[", "]]>", "]", ">", "<!ENTITY % x \"IGNORE\">", "<!ENTITY % x CDATA>", "<!entity % y '%x;'>", "<![%y;[", "<script>", "</script>", "<!--<p>-->", "<?p <b>?>", "<!d>", "[" };
	bool wide = mc::flip(); docs(tok, L(5), [&](const std::string& s, Fin& fin) { whole("html.sections", s, fin, wide); });
}
MC_HARNESS(chunks)
{
	static const S tok{ "<", ">", "a", "\"", "'", "=", "/", "!", "-", "[", "]", "?", " ", "<!--", "-->", "<![IGNORE[", "<![CDATA[", "]]>", "<b x=", "</b>", "<script>", "</script>", "<p>" };
	docs(tok, L(4), [&](const std::string& s, Fin& fin) {
		Doc want = expected(s); fin.see(!want.q.empty(), (size_t)fold(want));
		compare("html.chunks", s, want, got<char>(s), "whole");
		std::vector<size_t> each;
		for (size_t c = 1; c < s.size(); ++c) { each.push_back(c); compare("html.chunks", s, want, got<char>(s, { c }), mc::str("cut at %zu", c).c_str()); }
		if (!each.empty()) compare("html.chunks", s, want, got<char>(s, each), "by character");
		if (s.size() <= 12) for (size_t c = 1; c < s.size(); ++c) for (size_t e = c + 1; e < s.size(); ++e) compare("html.chunks", s, want, got<char>(s, { c, e }), mc::str("cut at %zu and %zu", c, e).c_str());
	});
}
// --- elements
#define ELEMENTS(X) X(a) X(abbr) X(acronym) X(address) X(applet) X(area) X(b) X(base) X(basefont) X(bdo) X(bgsound) X(big) X(blink) X(blockquote) X(body) X(br) X(button) X(caption) X(center) X(cite) X(code) X(col) X(colgroup) X(comment) \
	X(dd) X(del) X(dfn) X(dir) X(div) X(dl) X(dt) X(em) X(embed) X(fieldset) X(font) X(form) X(frame) X(frameset) X(h1) X(h2) X(h3) X(h4) X(h5) X(h6) X(head) X(hr) X(html) X(i) X(iframe) X(img) X(input) X(ins) X(isindex) X(kbd) X(label) X(legend) \
	X(li) X(link) X(listing) X(map) X(marquee) X(menu) X(meta) X(nextid) X(nobr) X(noembed) X(noframes) X(noscript) X(object) X(ol) X(optgroup) X(option) X(p) X(param) X(plaintext) X(pre) X(q) X(rt) X(ruby) X(s) X(samp) X(script) X(select) X(small) \
	X(span) X(strike) X(strong) X(style) X(sub) X(sup) X(table) X(tbody) X(td) X(textarea) X(tfoot) X(th) X(thead) X(title) X(tr) X(tt) X(u) X(ul) X(var) X(wbr) X(xmp)
struct El { const char* name; element_t code; };
static const El elements[] = {
#define X(n) { #n, element_t::n },
	ELEMENTS(X)
#undef X
};
static const size_t num = sizeof(elements) / sizeof(*elements);
static bool among(element_t c, std::initializer_list<element_t> l) { for (auto e : l) if (e == c) return true; return false; }
MC_HARNESS(names)
{
	const El& e = elements[mc::choose(num)]; mc::job_noskip(); const std::string name = e.name; const size_t n = name.size(); bool any = false;
	auto code = [&](const std::string& s) {
		// neither characters after the limit count, nor ones after the terminator
		const std::string t = s + "x"; const std::string z = s + std::string("\0a", 2); auto w = pc::W<wchar_t>(t);
		element_t a = html::element::element_code(t.data(), s.size()), b = html::element::element_code(w.data(), s.size()), c = html::element::element_code(z.data(), z.size()); mc::transition();
		MC_CHECK(a == b && a == c, "html.names", "%s is element %d, but %d when wide and %d when terminated", s.c_str(), (int)a, (int)b, (int)c);
		return a;
	};
	for (uint32_t m = 0; m < (1u << n); ++m) {
		std::string s = name; for (size_t i = 0; i < n; ++i) if (m >> i & 1) s[i] = (char)toupper(s[i]);
		MC_CHECK(code(s) == e.code, "html.names", "%s is not known as %s", s.c_str(), e.name); any = true;
	}
	// with a character changed, removed or added, it is another element or none
	auto other = [&](const std::string& s) {
		element_t want = element_t::unknown; for (auto& x : elements) if (!strcasecmp(x.name, s.c_str())) want = x.code;
		MC_CHECK(code(s) == want, "html.names", "%s is known as %d instead of %d", s.c_str(), (int)code(s), (int)want);
	};
	for (size_t i = 0; i <= n; ++i) {
		if (i < n) { std::string s = name; s.erase(i, 1); other(s); other(name.substr(0, i)); }
		for (int c = 1; c < 128; ++c) { std::string s = name; s.insert(i, 1, (char)c); other(s); if (i < n) { s = name; s[i] = (char)c; other(s); } }
	}
	mc::state((uint64_t)e.code); mc::outcome((uint64_t)e.code); if (any) mc::nontrivial();
}
MC_HARNESS(content)
{
	// what HTML says on contents of elements
	typedef element_t E; const El& a = elements[mc::choose(num)]; mc::job_noskip(); const E p = a.code; const std::string n = a.name;
	const bool empty = among(p, { E::area, E::base, E::basefont, E::br, E::col, E::frame, E::hr, E::img, E::input, E::isindex, E::link, E::meta, E::param });
	for (auto& x : elements) {
		const E c = x.code; const bool may = traits::may_contain(p, c); mc::transition();
		auto must = [&](bool v) { MC_CHECK(may == v, "html.content", "<%s> %s contain <%s>", a.name, may ? "may" : "may not", x.name); };
		if (c == E::comment) { must(true); continue; }
		const bool phrase = among(c, { E::tt, E::i, E::b, E::u, E::s, E::strike, E::big, E::small, E::em, E::strong, E::dfn, E::code, E::samp, E::kbd, E::var, E::cite, E::abbr, E::acronym, E::br, E::span, E::sub, E::sup, E::q, E::script, E::bdo, E::map, E::img, E::font, E::object, E::applet, E::iframe, E::a, E::input, E::select, E::textarea, E::label, E::button });
		const bool block = among(c, { E::p, E::h1, E::h2, E::h3, E::h4, E::h5, E::h6, E::ul, E::ol, E::dir, E::menu, E::pre, E::dl, E::div, E::center, E::noscript, E::noframes, E::blockquote, E::form, E::hr, E::table, E::fieldset, E::address });
		const bool part = among(c, { E::li, E::dt, E::dd, E::tr, E::td, E::th, E::tbody, E::thead, E::tfoot, E::col, E::colgroup, E::caption, E::option, E::optgroup, E::html, E::head, E::body, E::title, E::base, E::meta, E::link, E::area, E::frame, E::frameset, E::legend, E::param });
		if (empty) must(false);
		if (traits::span(p) == html::element_span_t::end_optional && p == c) must(false); // the next one ends it
		const bool text_only = among(p, { E::p, E::h1, E::h2, E::h3, E::h4, E::h5, E::h6, E::em, E::strong, E::b, E::i, E::u, E::tt, E::s, E::strike, E::big, E::small, E::span, E::sub, E::sup, E::q, E::bdo, E::font, E::dt, E::caption, E::legend, E::dfn, E::samp, E::kbd, E::var, E::cite, E::abbr, E::acronym });
		if (text_only) { if (phrase) must(true); if (block || part) must(false); }
		if (among(p, { E::div, E::center, E::blockquote, E::dd, E::li, E::td, E::th, E::body, E::ins, E::del, E::noscript, E::iframe })) { if (phrase || block) must(true); if (part) must(false); }
		if (among(p, { E::ul, E::ol, E::dir, E::menu })) must(c == E::li);
		if (p == E::dl) must(c == E::dt || c == E::dd);
		if (p == E::tr) must(c == E::td || c == E::th);
		if (among(p, { E::tbody, E::thead, E::tfoot })) must(c == E::tr);
		if (p == E::table) { if (among(c, { E::caption, E::col, E::colgroup, E::thead, E::tfoot, E::tbody })) must(true); if (phrase || block || c == E::td || c == E::th) must(false); }
		if (p == E::select) must(c == E::option || c == E::optgroup);
		if (p == E::optgroup) must(c == E::option);
		if (p == E::colgroup) must(c == E::col);
		if (p == E::html) must(c == E::head || c == E::body || c == E::frameset);
		if (p == E::frameset) must(c == E::frameset || c == E::frame || c == E::noframes);
		if (among(p, { E::script, E::style, E::option, E::textarea, E::title })) must(false);
		if (p == E::head) { if (among(c, { E::title, E::base, E::meta, E::link, E::script, E::style, E::object, E::isindex })) must(true); if (block || c == E::body) must(false); }
		if (p == E::a) { if (phrase) must(c != E::a); if (block || part) must(false); }
		if (p == E::label) { if (phrase) must(c != E::label); if (block || part) must(false); }
		if (p == E::form) { if (phrase || block) must(c != E::form); if (part) must(false); }
		if (p == E::pre) { if (among(c, { E::img, E::object, E::applet, E::big, E::small, E::sub, E::sup, E::font }) || block || part) must(false); if (among(c, { E::b, E::i, E::a, E::br, E::span, E::em, E::code, E::kbd })) must(true); }
		if (p == E::button && (among(c, { E::a, E::input, E::select, E::textarea, E::label, E::button, E::form, E::isindex, E::fieldset, E::iframe }))) must(false);
	}
	MC_CHECK(traits::may_contain(p, element_t::unknown) && traits::may_contain(element_t::unknown, p), "html.content", "<%s> and unknown elements may not contain each other", a.name);
	const auto span = traits::span(p);
	if (empty) MC_CHECK(span == html::element_span_t::immediate, "html.content", "<%s> spans", a.name);
	else if (among(p, { E::body, E::colgroup, E::dd, E::dt, E::head, E::html, E::li, E::option, E::p, E::tbody, E::td, E::tfoot, E::th, E::thead, E::tr })) MC_CHECK(span == html::element_span_t::end_optional, "html.content", "<%s> must be ended", a.name);
	else if (!among(p, { E::bgsound, E::embed, E::nextid, E::rt, E::wbr, E::plaintext })) MC_CHECK(span == html::element_span_t::needs_end, "html.content", "<%s> need not be ended", a.name);
	mc::state((uint64_t)p); mc::outcome((uint64_t)span); mc::nontrivial();
}
MC_HARNESS(nesting)
{
	const El& a = elements[mc::choose(num)]; const El& b = elements[mc::choose(num)]; mc::job_noskip(); Fin fin;
	const std::string x = a.name, y = b.name;
	for (auto& f : S{ "<@><#>", "<@>t<#>u</#>v</@>w", "<@><#></@></#>", "<@/><#/>", "<@><@><#></@></@>", "<div><@><#>t</div>", "<#>t</@>", "<x><@></x><#>", "<@><#><@>" }) {
		std::string s; for (char c : f) if (c == '@') s += x; else if (c == '#') s += y; else s += c;
		whole("html.nesting", s, fin, false);
	}
	if (mc::thorough()) for (auto& c : elements) { whole("html.nesting", "<" + x + "><" + y + "><" + c.name + ">", fin, false); whole("html.nesting", "<" + x + "><" + y + "><" + c.name + "></" + x + "><" + y + ">", fin, false); }
	mc::state(mc::hash(x + "," + y)); mc::outcome(fin.h); mc::nontrivial();
}
MC_HARNESS(charsets)
{
	struct C { const char* name; stdex::charset_id id; };
	static const C all[] = { { "utf-8", stdex::charset_id::utf8 }, { "UTF-8", stdex::charset_id::utf8 }, { "windows-1250", stdex::charset_id::windows1250 }, { "cp1252", stdex::charset_id::windows1252 }, { "utf-16", stdex::charset_id::utf16 }, { "unicode-1-1-utf-7", stdex::charset_id::utf7 } };
	static const S prefix{ "", "text", "<html><head>", "<!-- <meta http-equiv=content-type content=\"text/html; charset=windows-1251\"> -->", "<script><meta http-equiv=content-type content=\"text/html; charset=windows-1251\"></script>", "<meta name=x content=\"text/html; charset=windows-1251\">", "<p http-equiv=content-type content=\"text/html; charset=windows-1251\">" };
	const C& c = all[mc::choose(sizeof(all) / sizeof(*all))]; const std::string& pre = mc::pick(prefix); mc::job_noskip(); Fin fin;
	for (auto& tag : S{ "meta", "META", "Meta" }) for (auto& eqv : S{ "http-equiv", "HTTP-Equiv" }) for (auto& type : S{ "Content-Type", "\"content-type\"", "'CONTENT-TYPE'", "refresh", "" }) for (auto& quote : S{ "\"", "'" })
	for (auto& order : { 0, 1 }) for (auto& close : S{ ">", "/>", " >" }) for (auto& media : S{ "text/html; charset=", "text/html;charset=", "text/html; Charset=", "text/html; boundary=", "text/html;  charset=" }) {
		std::string h = eqv + "=" + type, v = "content=" + quote + media + c.name + quote;
		const std::string s = pre + "<" + tag + " " + (order ? v + " x=y " + h : h + " x " + v) + close + "<meta http-equiv=content-type content='text/html; charset=utf-32'>";
		const bool counts = type.find("ontent") != std::string::npos || type.find("ONTENT") != std::string::npos, has = media.find("harset") != std::string::npos;
		size_t want = (size_t)(counts && has ? c.id : stdex::charset_id::utf32);
		Doc n = got<char>(s); fin.see(true, want);
		MC_CHECK(n.charset == want, "html.charset", "%s: charset is %zu instead of %zu", q(s).c_str(), n.charset, want);
		Doc w = got<wchar_t>(s); MC_CHECK(w.charset == want, "html.charset", "%s: charset is %zu when wide instead of %zu", q(s).c_str(), w.charset, want);
	}
	mc::state(mc::hash(pre + c.name)); mc::outcome(fin.h); mc::nontrivial();
}
MC_HARNESS(reuse)
{
	// a cleared document is as good as new, whatever it was in the middle of
	static const S tok{ "<p>", "<script>", "<![CDATA[", "<![IGNORE[", "<![x[", "<!--", "<a b=\"", "<!ENTITY % x y>", "t", "<meta http-equiv=content-type content='text/html; charset=utf-8'>" };
	static const S then{ "<p>a</p>", "]]>", "-->\">b<i>", "<![%x;[", "</script>" };
	std::string s; size_t n = mc::choose(4); for (size_t i = 0; i < n; ++i) s += mc::pick(tok); mc::job(); bool fin = mc::flip();
	for (auto& t : then) for (int how = 0; how < 3; ++how) {
		Document<char> d, e; bool a = false, b = false;
		d.append(s.data(), s.size()); if (fin) d.finalize();
		try {
			if (how == 0) d.assign(t.data(), t.size()); else { d.clear(); MC_CHECK(d.all().empty() && d.source().empty(), "html.reuse", "%s: cleared document is not empty", q(s).c_str()); if (how == 2) d.append("", 0); d.append(t.data(), t.size()); d.finalize(); }
		} catch (const std::runtime_error&) { a = true; }
		try { e.assign(t.data(), t.size()); } catch (const std::runtime_error&) { b = true; }
		Doc x = d.get(), y = e.get(); x.thrown = a; y.thrown = b; mc::transition();
		compare("html.reuse", s + " then " + t, y, x, "reused");
		MC_CHECK(d.charset() == e.charset() && d.source() == e.source(), "html.reuse", "%s then %s: charset or source is of another document", q(s).c_str(), q(t).c_str());
	}
	mc::state(mc::hash(s, fin)); mc::outcome(n); mc::nontrivial();
}
