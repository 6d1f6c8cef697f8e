// P10: tokens of HTML documents: linked together they give the document back, with the same texts, at the right places in the source
#include "html_ref.h"
#include <set>
#include <functional>
#include <stdex/html.hpp>
typedef std::vector<std::string> S;
namespace html = stdex::html;
using html::element_t; typedef html::element_traits traits;
typedef std::wstring W;
#ifdef SHORT // to run with memory checked
static size_t L(size_t quick) { return mc::thorough() ? quick : quick - 1; }
#else
static size_t L(size_t quick) { return mc::thorough() ? quick + 1 : quick; }
#endif
struct Document : html::document<wchar_t> { const html::sequence_store& all() const { return m_sequences; } };
typedef html::parser<wchar_t> Parser;
typedef html::text_token<wchar_t> Text; typedef html::starting_token<wchar_t> Start; typedef html::url_token<wchar_t> Url;
struct MyStart : Start { MyStart(const W& t, const W& n) : Start(t.data(), t.size(), n.data(), n.size()) {} };
struct MyText : Text { MyText(html::token_t type, const W& t, uint32_t flags = 0) : Text(type, t.data(), t.size(), flags) {} };
struct MyToken : html::token {};
struct MyParser : Parser { using Parser::Parser; using Parser::start_tokens; using Parser::end_tokens; using Parser::append_inserted_tokens; using Parser::merge; };
static W wide(const std::string& s) { return pc::W<wchar_t>(s); }
static std::string q(const W& s) { std::string o = "\""; for (wchar_t c : s) { if (c >= 32 && c < 127) o += (char)c; else o += mc::str("\\x%x", (unsigned)c); } return o + "\""; }
static W decode(const W& s, size_t a, size_t b) { W o; stdex::sgml2strcat(o, s.data() + a, b - a); return o; }
// in texts, characters which would be taken for tags of tokens are substituted
static W text_of(W s) { for (auto& c : s) if (c == html::token_tag_start || c == html::token_tag_end) c = 0x1a; return s; }
static bool blank(const W& s) { for (wchar_t c : s) if (!iswspace((wint_t)c)) return false; return true; }
static bool verbatim(element_t c) { return c == element_t::address || c == element_t::code || c == element_t::comment || c == element_t::cite || c == element_t::kbd || c == element_t::samp || c == element_t::script || c == element_t::style; }
static bool low(const W& s, const Iv& i, const char* n) { if (i.size() != strlen(n)) return false; for (size_t k = 0; k < i.size(); ++k) if ((wchar_t)n[k] != (s[i.start + k] < 128 ? (wchar_t)tolower((int)s[i.start + k]) : s[i.start + k])) return false; return true; }
static bool low(const W& s, const Iv& i, std::initializer_list<const char*> l) { for (auto n : l) if (low(s, i, n)) return true; return false; }
// attributes holding addresses and texts, as HTML has them
static bool address(element_t c, const W& s, const Iv& i)
{
	typedef element_t E;
	switch (c) {
	case E::a: case E::area: case E::base: case E::link: return low(s, i, "href");
	case E::applet: return low(s, i, { "code", "codebase", "src" });
	case E::bgsound: case E::script: return low(s, i, "src");
	case E::blockquote: case E::del: case E::ins: case E::q: return low(s, i, "cite");
	case E::body: case E::table: case E::td: case E::th: return low(s, i, "background");
	case E::comment: return low(s, i, "data");
	case E::embed: return low(s, i, { "pluginspage", "src" });
	case E::form: return low(s, i, "action");
	case E::frame: case E::iframe: return low(s, i, { "longdesc", "src" });
	case E::head: return low(s, i, "profile");
	case E::img: return low(s, i, { "longdesc", "lowsrc", "src", "usemap" });
	case E::input: return low(s, i, { "lowsrc", "src", "usemap" });
	case E::object: return low(s, i, { "basehref", "classid", "code", "codebase", "data", "usemap" });
	default: return false;
	}
}
static bool text_in(element_t c, const W& s, const Iv& i)
{
	typedef element_t E;
	if (low(s, i, "title")) return true;
	switch (c) {
	case E::applet: case E::area: case E::img: case E::input: case E::object: return low(s, i, "alt");
	case E::table: return low(s, i, "summary");
	case E::td: case E::th: return low(s, i, "abbr");
	default: return false;
	}
}
// CSS with addresses read: what is not of an address as it is, addresses decoded
static void css(const W& s, size_t a, size_t b, W& text, std::vector<W>* urls = nullptr)
{
	std::string n; for (size_t i = a; i < b; ++i) n += s[i] < 128 ? (char)s[i] : 'x';
	for (size_t p = 0; p < n.size();) {
		std::string h = n.substr(p); auto r = ref::css_comment(h);
		if (r.i) { text.append(s, a + p, r.i.end); p += r.i.end; continue; }
		r = ref::css_import(h); if (!r.i) r = ref::css_uri(h);
		if (!r.i) { text += s[a + p++]; continue; }
		W u; html::css_unescape(u, s.data() + a + p + r.content.start, r.content.size());
		text.append(s, a + p, r.content.start); text += L"\x1" + u + L"\x2"; text.append(s, a + p + r.content.end, r.i.end - r.content.end);
		if (urls) urls->push_back(u);
		p += r.i.end;
	}
}
struct Texts { W all; std::vector<size_t> at; std::vector<W> urls; void add(wchar_t c, size_t p) { all += c; at.push_back(p); } };
// decode with where each character came from
static void texts(const W& s, size_t a, size_t b, Texts& t)
{
	for (size_t i = a; i < b;) {
		if (s[i] == '&') {
			size_t e = s.find(L';', i);
			if (e != W::npos && e < b) { W x = decode(s, i, e + 1); if (x != s.substr(i, e + 1 - i)) { x = text_of(x); for (size_t k = 0; k < x.size(); ++k) t.add(x[k], i + k); i = e + 1; continue; } }
		}
		t.add(s[i], i); ++i;
	}
}
// what a document says
struct Events { std::vector<W> e; Texts t; bool pending = false; W text; void flush() { if (!text.empty()) e.push_back(L"T" + text); text.clear(); } void put(const W& x) { flush(); e.push_back(x); } };
static Events events(const Document& d)
{
	Events r; const W& s = d.source(); auto& all = d.all();
	for (size_t k = 0; k < all.size(); ++k) {
		auto& p = *all[k];
		if (p.type == html_sequence_t::text) { r.text += text_of(decode(s, p.interval.start, p.interval.end)); texts(s, p.interval.start, p.interval.end, r.t); continue; }
		W raw(s, p.interval.start, p.interval.size());
		if (p.type == html_sequence_t::element || p.type == html_sequence_t::element_start) {
			auto& e = static_cast<html::element&>(p);
			W x = p.type == html_sequence_t::element ? L"E" : L"S"; x.append(s, e.name.start, e.name.size());
			for (auto& a : e.attributes) {
				x += L"|" + s.substr(a.name.start, a.name.size()); if (!a.value) continue;
				x += L"=" + text_of(decode(s, a.value.start, a.value.end));
				if (a.value.empty() || blank(s.substr(a.value.start, a.value.size()))) continue;
				if (address(e.code, s, a.name)) r.t.urls.push_back(decode(s, a.value.start, a.value.end));
				else if (text_in(e.code, s, a.name)) texts(s, a.value.start, a.value.end, r.t);
			}
			r.put(x);
			if (p.type == html_sequence_t::element_start && verbatim(e.code)) {
				auto end = static_cast<html::element_start&>(p).end; size_t to = end ? end->interval.start : s.size();
				if (k + 1 < all.size() && all[k + 1].get() != end) {
					W c; if (e.code == element_t::style) css(s, p.interval.end, to, c, &r.t.urls); else c.append(s, p.interval.end, to - p.interval.end);
					if (!c.empty()) r.put(L"R" + c);
				}
				while (k + 1 < all.size() && all[k + 1].get() != end) ++k;
			}
			continue;
		}
		r.put((p.type == html_sequence_t::CDATA ? L"C" : p.type == html_sequence_t::PCDATA ? L"P" : L"V") + raw);
	}
	r.flush(); return r;
}
// texts found by going through tokens
static void walk(const html::token* t, Texts& out, const std::string& src, std::set<const html::token*>& seen)
{
	MC_CHECK(seen.insert(t).second, "html.tokens", "%s: a token is used more than once", src.c_str());
	if (t->type == html::token_t::url) { out.urls.push_back(static_cast<const Url*>(t)->url); return; }
	auto x = static_cast<const Text*>(t); const wchar_t* s = x->text.c_str(); const bool says = !x->mapping.empty();
	for (size_t i = 1; i < x->mapping.size(); ++i) MC_CHECK(x->mapping[i - 1].from <= x->mapping[i].from && x->mapping[i - 1].to <= x->mapping[i].to, "html.mapping", "%s: mapping goes back", src.c_str());
	bool any = false, toks = false;
	for (size_t i = 0; i < x->text.size();) {
		if (auto t2 = html::token::parse_tag(s, i)) { walk(t2, out, src, seen); toks = true; continue; }
		if (says) {
			// where the last of what is known of this place is
			size_t at = stdex::dst2src(x->mapping, i); for (auto& m : x->mapping) if (m.to == i) at = m.from;
			out.add(s[i], at);
		}
		if (says) any |= !iswspace((wint_t)s[i]);
		++i;
	}
	MC_CHECK(toks == !!(x->text_type & html::has_tokens), "html.tokens", "%s: token is %smarked to refer to others", src.c_str(), toks ? "not " : "");
	if (says && any) MC_CHECK(x->text_type & html::has_text, "html.tokens", "%s: token is not marked to have text", src.c_str());
	if (!says) MC_CHECK(!(x->text_type & html::has_text), "html.tokens", "%s: markup is marked as text", src.c_str());
}
static uint64_t link_of(const std::string& src, bool check_texts = true)
{
	const W s = wide(src); Document d; try { d.assign(s.data(), s.size()); } catch (const std::runtime_error&) { return 0; }
	Parser p(d); auto root = p.parse(); W out; Parser::link(out, root); mc::transition();
	std::set<const html::token*> seen; Texts t; walk(root, t, pw::q(src), seen);
	Events e = events(d);
	for (auto& x : p.tokens()) MC_CHECK(seen.count(x.get()), "html.tokens", "%s: a token is not used", pw::q(src).c_str());
	if (t.all != e.t.all) MC_CHECK(false, "html.texts", "%s: texts are %s instead of %s", pw::q(src).c_str(), q(t.all).c_str(), q(e.t.all).c_str());
	for (size_t i = 0; i < t.at.size(); ++i) MC_CHECK(t.at[i] == e.t.at[i], "html.mapping", "%s: character %zu of texts is from %zu in the source instead of %zu", pw::q(src).c_str(), i, t.at[i], e.t.at[i]);
	MC_CHECK(t.urls.size() == e.t.urls.size(), "html.urls", "%s: %zu URLs instead of %zu", pw::q(src).c_str(), t.urls.size(), e.t.urls.size());
	for (size_t i = 0; i < t.urls.size(); ++i) MC_CHECK(t.urls[i] == e.t.urls[i], "html.urls", "%s: URL %zu is %s instead of %s", pw::q(src).c_str(), i, q(t.urls[i]).c_str(), q(e.t.urls[i]).c_str());
	// the linked document
	Document d2; d2.assign(out.data(), out.size()); Events e2 = events(d2);
	for (size_t i = 0; i < e.e.size() && i < e2.e.size(); ++i) MC_CHECK(e.e[i] == e2.e[i], "html.link", "%s is linked to %s: %s becomes %s", pw::q(src).c_str(), q(out).c_str(), q(e.e[i]).c_str(), q(e2.e[i]).c_str());
	MC_CHECK(e.e.size() == e2.e.size(), "html.link", "%s is linked to %s: of %zu parts instead of %zu", pw::q(src).c_str(), q(out).c_str(), e2.e.size(), e.e.size());
	Parser p2(d2); W out2; Parser::link(out2, p2.parse());
	MC_CHECK(out == out2, "html.link", "%s is linked to %s, and that to %s", pw::q(src).c_str(), q(out).c_str(), q(out2).c_str());
	return mc::hash(std::string((const char*)out.data(), out.size() * sizeof(wchar_t)));
}
template <class A> static void docs(const S& tok, size_t len, A go)
{
	size_t n = mc::choose(len + 1); std::string s; uint64_t h = 0;
	for (size_t i = 0; i + 2 < n; ++i) { s += mc::pick(tok); if (i == 0) mc::job(); }
	if (n < 3) mc::job();
	if (n == 0) h = go(s); else if (n == 1) for (auto& a : tok) h += go(s + a); else for (auto& a : tok) for (auto& b : tok) h += go(s + a + b);
	mc::state(mc::hash(s, n)); mc::outcome(h % 1024); mc::nontrivial();
}
MC_HARNESS(link)
{
	static const S tok{ "a", "&amp;", "&lt;b&gt;", "&nbsp;", "&", "&x;", " ", "\"", "<p>", "</p>", "<b>", "</b>", "<h1>", "</h1>", "<br/>", "<hr>", "<x y>", "<!--<b>-->", "<![CDATA[", "<![RCDATA[", "<![IGNORE[", "<![INCLUDE[", "]]>", "<a href=\"&amp;\">", "</a>", "<img alt=a&quot;b>", "<?i?>", "<!d>", "<", "&#x3c;", "<ul>", "<li>" };
	docs(tok, L(4), [&](const std::string& s) { return link_of(s); });
}
MC_HARNESS(control_characters)
{
	// references to characters that mean something between tokens
	static const S tok{ "&#18;", "&#x13;", "4", "<b>", "</b>", "<a href=\"&#18;4&#19;\">", "<img alt='&#18;4&#19;'>", "<i class=\"&#x12;1&#19;\">", "&#0;", "&#26;", "<!--&#18;1&#19;-->", "<kbd>&#18;1&#19;</kbd>", "<style>url(\"\\12 1\\13 \")</style>", "&#65554;" };
	docs(tok, L(5), [&](const std::string& s) { return link_of(s); });
}
MC_HARNESS(verbatim_elements)
{
	// no sections to ignore or include: these might begin inside such an element and end after it
	static const S tok{ "a", "&lt;", "&amp;", "<p>", "</p>", "<b>", "</b>", "<script>", "</script>", "<kbd>", "</kbd>", "<address>", "</address>", "<style>", "</style>", "url(&amp;)", "<!--<b>-->", "<![CDATA[", "<![RCDATA[", "]]>", "<a href='&amp;' title='&apos;'>", "</a>", "<?i?>", "<", "<code title=\"&quot;\">", "</code>", " " };
	docs(tok, L(4), [&](const std::string& s) { return link_of(s); });
}
struct El { const char* name; element_t code; };
#define ELEMENTS(X) X(a) X(abbr) X(acronym) X(address) X(applet) X(area) X(b) X(base) X(basefont) X(bdo) X(bgsound) X(big) X(blink) X(blockquote) X(body) X(br) X(button) X(caption) X(center) X(cite) X(code) X(col) X(colgroup) X(comment) \
	X(dd) X(del) X(dfn) X(dir) X(div) X(dl) X(dt) X(em) X(embed) X(fieldset) X(font) X(form) X(frame) X(h1) X(h2) X(h3) X(h4) X(h5) X(h6) X(head) X(hr) X(html) X(i) X(iframe) X(img) X(input) X(ins) X(isindex) X(kbd) X(label) X(legend) \
	X(li) X(link) X(listing) X(map) X(marquee) X(menu) X(meta) X(nextid) X(nobr) X(noembed) X(noframes) X(noscript) X(object) X(ol) X(optgroup) X(option) X(p) X(param) X(plaintext) X(pre) X(q) X(rt) X(ruby) X(s) X(samp) X(script) X(select) X(small) \
	X(span) X(strike) X(strong) X(style) X(sub) X(sup) X(table) X(tbody) X(td) X(textarea) X(tfoot) X(th) X(thead) X(title) X(tr) X(tt) X(u) X(ul) X(var) X(wbr) X(xmp) X(unknown)
static const El elements[] = {
#define X(n) { #n, element_t::n },
	ELEMENTS(X)
#undef X
};
static const size_t num = sizeof(elements) / sizeof(*elements);
MC_HARNESS(attributes)
{
	static const S names{ "href", "HREF", "src", "code", "codebase", "cite", "background", "data", "pluginspage", "action", "longdesc", "profile", "lowsrc", "usemap", "basehref", "classid", "title", "Title", "alt", "summary", "abbr", "value", "hre", "hrefs", "srca", "al", "altx" };
	static const S values{ "x", "\"x\"", "'x'", "\"a &quot;b&quot; c\"", "'a &#x27;b&#39; c'", "a&quot;b", "a&#32;b", "a&gt;b", "\"a>b\"", "\"a'b\"", "'a\"b'", "\"\"", "\" \"", "\"&amp;amp;\"", "\"a&b;c\"", "\"&lt;p&gt;\"", "a\"b", "a'b", "\"a&nbsp;b\"", "&amp", "\"&\"", "x?y=1&z=2", "\"a\nb\"", "\"\"\"\"", "" };
	const El& e = elements[mc::choose(num)]; mc::job_noskip(); const std::string& n = mc::pick(names); uint64_t h = 0;
	for (auto& v : values) for (auto& close : S{ ">", "/>", " >", " />" }) for (auto& eq : S{ "=", " = " }) {
		if (!mc::thorough() && (close[0] == ' ') != (eq[0] == ' ')) continue;
		std::string t = std::string("<") + e.name + " " + n + eq + v + close;
		h += link_of("&lt;" + t + "b&gt;</" + e.name + ">c"); h += link_of("<div>" + std::string("<") + e.name + " x='1' " + n + eq + v + " y " + n + "=\"&quot;\"" + close + "z</div>");
		// as named by HTML
		const W s = wide(t); Document d; d.assign(s.data(), s.size());
		MC_CHECK(!d.all().empty(), "html.attributes", "%s: no sequence", pw::q(t).c_str());
	}
	const W w = wide(n); const Iv i(0, n.size());
	MC_CHECK(traits::is_uri(e.code, w.data(), n.size()) == address(e.code, w, i) && traits::is_uri(e.code, n.data(), n.size()) == address(e.code, w, i), "html.attributes", "%s of %s is %sa URL", n.c_str(), e.name, address(e.code, w, i) ? "not " : "");
	MC_CHECK(traits::is_localizable(e.code, w.data(), n.size()) == text_in(e.code, w, i) && traits::is_localizable(e.code, n.data(), n.size()) == text_in(e.code, w, i), "html.attributes", "%s of %s is %slocalizable", n.c_str(), e.name, text_in(e.code, w, i) ? "not " : "");
	mc::state(mc::hash(n, (uint64_t)e.code)); mc::outcome(h % 1024); mc::nontrivial();
}
MC_HARNESS(nested)
{
	const El& a = elements[mc::choose(num)]; const El& b = elements[mc::choose(num)]; mc::job_noskip(); uint64_t h = 0; const std::string x = a.name, y = b.name;
	for (auto& f : S{ "<@><#>t", "s<@>t<#>u</#>v</@>w", "<@><#>&amp;</@>&lt;</#>t", "<@/>t<#/>u", "<@>1<@>2<#>3</@>4</@>5", "<p>1<@>2<#>3</p>4", "<#>t</@>u", "<div><@ title='&quot;'>1<# title=x>2</div>3</#>4" }) {
		std::string s; for (char c : f) if (c == '@') s += x; else if (c == '#') s += y; else s += c;
		h += link_of(s);
	}
	mc::state(mc::hash(x + "," + y)); mc::outcome(h % 1024); mc::nontrivial();
}
MC_HARNESS(style)
{
	static const S tok{ "a", "url(", "\"", "'", ")", "\\)", "\\\"", "\\41 ", "\\n", " ", "@import ", "/*", "*/", "<!--", "-->", "</b>", "(", ";", "\n", "\\28", "&amp;" };
	docs(tok, L(4), [&](const std::string& s) {
		uint64_t h = link_of("<style>" + s + "</style>t");
		return h;
	});
}
MC_HARNESS(titles)
{
	// what kind of texts there are in elements
	const El& e = elements[mc::choose(num)]; mc::job_noskip(); typedef element_t E; const E c = e.code;
	const bool heading = c == E::h1 || c == E::h2 || c == E::h3 || c == E::h4 || c == E::h5 || c == E::h6 || c == E::dt || c == E::title, list = c == E::ul || c == E::ol || c == E::dir || c == E::menu;
	const W s = wide(std::string("<x>a</x><") + e.name + ">b&amp;c</" + e.name + ">d"); Document d; d.assign(s.data(), s.size()); Parser p(d); p.parse(); mc::transition();
	bool found = false;
	for (auto& t : p.tokens()) {
		if (t->type == html::token_t::url) continue;
		auto x = static_cast<Text*>(t.get()); if (x->mapping.empty() || x->text.find(L"b&c") == W::npos) continue;
		found = true;
		MC_CHECK(!!(x->text_type & html::is_title) == heading, "html.titles", "text of <%s> is %sa title", e.name, heading ? "not " : "");
		MC_CHECK(!!(x->text_type & html::is_bullet) == list, "html.titles", "text of <%s> is %sa list", e.name, list ? "not " : "");
		MC_CHECK(x->text_type & html::has_text, "html.titles", "text of <%s> is not a text", e.name);
	}
	MC_CHECK(found == !verbatim(c), "html.titles", "text of <%s> is %s", e.name, found ? "localizable" : "lost");
	// elements which may have text in are started with tokens telling how to end them
	for (auto& t : p.tokens()) if (t->type == html::token_t::starting) {
		auto x = static_cast<Start*>(t.get());
		MC_CHECK(x->name == L"x" || x->name == wide(e.name), "html.titles", "<%s>: starting token named %s", e.name, q(x->name).c_str());
		MC_CHECK(x->sequence && x->sequence->type == html_sequence_t::element_start && x->end_sequence == static_cast<html::element_start*>(x->sequence)->end, "html.titles", "<%s>: starting token is of another sequence", e.name);
	}
	mc::state((uint64_t)c); mc::outcome(heading + 2 * list + 4 * found); mc::nontrivial();
}
MC_HARNESS(progress)
{
	struct P : stdex::progress<size_t> { size_t at = SIZE_MAX, lo = 9, hi = 9, n = 0, last = 0; bool back = false; void set_range(size_t a, size_t b) override { lo = a; hi = b; } void set(size_t v) override { back |= n && v < last; last = v; ++n; } bool cancel() override { return at == 0 ? true : (--at, false); } };
	static const S tok{ "a", "<p>", "</p>", "<b>", "</b>", "<!--c-->", "<kbd>", "</kbd>", "<h1>" };
	std::string s; size_t n = mc::choose(5); for (size_t i = 0; i < n; ++i) s += mc::pick(tok); mc::job();
	const W w = wide(s); Document d; d.assign(w.data(), w.size());
	P all; Parser p(d, nullptr, 0, false, &all); auto t = p.parse(); W out; Parser::link(out, t); mc::transition();
	MC_CHECK(all.lo == 0 && all.hi == w.size() && !all.back && all.last <= w.size(), "html.progress", "%s: progress %zu-%zu at %zu, %s", pw::q(s).c_str(), all.lo, all.hi, all.last, all.back ? "having gone back" : "not gone back");
	for (size_t k = 0; k + 1 < all.n; ++k) {
		P c; c.at = k; bool cancelled = false; Parser p2(d, nullptr, 0, false, &c);
		try { p2.parse(); } catch (const stdex::user_cancelled&) { cancelled = true; }
		MC_CHECK(cancelled && c.n == k + 1, "html.progress", "%s cancelled at %zu is %s at %zu", pw::q(s).c_str(), k, cancelled ? "cancelled" : "done", c.n);
	}
	// frames
	const W f = w + L"<frameset>x"; Document df; df.assign(f.data(), f.size()); bool thrown = false, has = false; for (auto& x : df.all()) has |= x->type == html_sequence_t::element_start && static_cast<html::element&>(*x).code == element_t::frameset;
	{ Parser p3(df); try { p3.parse(); } catch (const std::invalid_argument&) { thrown = true; } }
	bool hidden = false; for (size_t k = s.rfind("<kbd>"); k != std::string::npos; k = std::string::npos) hidden = true;
	if (!hidden) MC_CHECK(thrown == has, "html.frames", "%s: frames are %s", pw::q(s).c_str(), thrown ? "reported where there are none" : "not reported");
	{ Parser p4(df, nullptr, 0, true); W o; Parser::link(o, p4.parse()); MC_CHECK(o.find(L"<frameset>x") != W::npos, "html.frames", "%s: frames are lost", pw::q(s).c_str()); }
	mc::state(mc::hash(s)); mc::outcome(all.n); mc::nontrivial();
}
// --- lists of tokens
static const S tags{ "a", "B", "span", "x" };
MC_HARNESS(tokens)
{
	// start and end tokens as texts need them, and see that tags always match
	Document d; d.assign(L"", 0); MyParser p(d);
	std::vector<std::unique_ptr<Start>> st; for (auto& n : tags) st.emplace_back(new MyStart(wide("<" + n + ">"), wide(n)));
	W text; html::token_list active; std::vector<size_t> open; std::string want; std::string hist;
	const size_t steps = mc::thorough() ? 4 : 3;
	for (size_t k = 0; k < steps; ++k) {
		// a list of different tokens, in any order
		std::vector<size_t> l; size_t n = mc::choose(4); for (size_t i = 0; i < n; ++i) { size_t x; x = mc::choose(tags.size() - l.size()); std::vector<size_t> left; for (size_t y = 0; y < tags.size(); ++y) if (std::find(l.begin(), l.end(), y) == l.end()) left.push_back(y); l.push_back(left[x]); }
		if (k == 0) mc::job();
		html::token_list fresh; hist += "("; for (size_t x : l) { fresh.push_back(st[x].get()); hist += tags[x] + " "; } hist += ")";
		auto from = p.end_tokens(text, active, fresh); MyParser::start_tokens(text, active, fresh, from); text += L'.'; mc::transition();
		size_t c = 0; while (c < open.size() && c < l.size() && open[c] == l[c]) ++c;
		while (open.size() > c) { want += "</" + tags[open.back()] + ">"; open.pop_back(); }
		for (; c < l.size(); ++c) { want += "<" + tags[l[c]] + ">"; open.push_back(l[c]); } want += ".";
		MC_CHECK(active == fresh, "html.lists", "%s: %zu tokens are active instead of %zu", hist.c_str(), active.size(), fresh.size());
	}
	MyText root(html::token_t::root, text, html::has_tokens | html::has_text); W out; Parser::link(out, &root);
	MC_CHECK(out == wide(want), "html.lists", "%s: %s instead of %s", hist.c_str(), q(out).c_str(), pw::q(want).c_str());
	mc::state(mc::hash(hist)); mc::outcome(mc::hash(want) % 256); mc::nontrivial();
}
MC_HARNESS(link_tokens)
{
	// any tokens an application makes: what each adds to the source
	struct MyUrl : Url { MyUrl(const W& u, html::token_url_t e) : Url(u.data(), u.size(), e) {} };
	static const W pieces[] = { L"x", L"<&>", L"\"'", L";\xa0\n", L"()\\" };
	static const html::token_t types[] = { html::token_t::complete, html::token_t::starting, html::token_t::ending, html::token_t::root };
	std::vector<std::unique_ptr<html::token>> own; std::string hist;
	std::function<Text*(size_t, W&)> make = [&](size_t depth, W& want) -> Text* {
		const uint32_t flags = (depth ? mc::flip() * html::has_tokens : 0) | mc::flip() * html::has_text | mc::flip() * html::is_attribute; if (depth == 2) mc::job();
		const bool text = flags & html::has_text, attr = flags & html::is_attribute; W t; hist += mc::str("%x(", flags);
		auto put = [&](const W& s) { t += s; if (!text) { want += s; return; } for (wchar_t c : s) switch (c) {
			case '&': want += L"&amp;"; break; case '<': want += L"&lt;"; break; case '>': want += L"&gt;"; break; case 0xa0: want += L"&nbsp;"; break;
			case '"': want += attr ? L"&quot;" : L"\""; break; case '\'': want += attr ? L"&#x27;" : L"'"; break; case ';': want += attr ? L"&semi;" : L";"; break; default: want += c; } };
		const size_t n = 1 + mc::choose(mc::thorough() || depth == 2 ? 2 : 1);
		for (size_t i = 0; i < n; ++i) {
			size_t k = mc::choose(flags & html::has_tokens ? 9 : 5);
			if (k < 5) { put(pieces[k]); hist += mc::str("%zu ", k); continue; }
			if (k == 5) { auto x = make(depth - 1, want); own.emplace_back(x); x->append_tag(t); continue; }
			W u = L"a&\"'()\\;b<\xa0"; const html::token_url_t e = k == 6 ? html::token_url_t::plain : k == 7 ? html::token_url_t::sgml : html::token_url_t::css; hist += mc::str("url %d ", (int)e);
			if (k == 6) want += u; else if (k == 7) want += L"a&amp;&quot;&#x27;()\\&semi;b&lt;&nbsp;"; else want += L"a&\\\"\\'\\(\\)\\\\;b<\xa0";
			own.emplace_back(new MyUrl(u, e)); static_cast<Url*>(own.back().get())->append_tag(t);
		}
		hist += ")";
		return new MyText(depth == 2 ? html::token_t::root : types[(n + flags) % 4], t, flags);
	};
	W want; std::unique_ptr<Text> root(make(2, want)); W out(L"pre"); Parser::link(out, root.get()); mc::transition();
	MC_CHECK(out == L"pre" + want, "html.tokens", "%s: %s instead of %s", hist.c_str(), q(out).c_str(), q(want).c_str());
	mc::state(mc::hash(hist)); mc::outcome(mc::hash(std::string((const char*)want.data(), want.size() * sizeof(wchar_t))) % 1024); mc::nontrivial();
}
MC_HARNESS(inserted)
{
	// tokens inserted before and after words
	Document d; d.assign(L"", 0); MyParser p(d);
	std::vector<std::unique_ptr<Start>> st; for (auto& n : tags) st.emplace_back(new MyStart(wide("<" + n + ">"), wide(n)));
	std::vector<std::unique_ptr<Text>> els; html::inserted_token_list ins; struct I { size_t word; bool after; int active; std::string text; bool ending; }; std::vector<I> all; std::string hist;
	size_t n = mc::choose(mc::thorough() ? 4 : 3) + 1;
	for (size_t i = 0; i < n; ++i) {
		I x; x.word = mc::choose(3); x.after = mc::flip(); x.active = (int)mc::choose(4); x.ending = mc::flip(); x.text = mc::str(x.ending ? "</%zu>" : "<%zu/>", i); if (i == 0) mc::job();
		els.emplace_back(new MyText(x.ending ? html::token_t::ending : html::token_t::complete, wide(x.text)));
		html::token_list act; for (int k = 0; k < 2; ++k) if (x.active >> k & 1) act.push_back(st[k].get());
		ins.push_back({ els.back().get(), act, x.word, x.after }); all.push_back(x); hist += mc::str("%s %s %zu in %d; ", x.text.c_str(), x.after ? "after" : "before", x.word, x.active);
	}
	W text; html::token_list active; std::string want; int open = 0;
	for (size_t w = 0; w < 2; ++w) for (int after = 0; after < 2; ++after) {
		p.append_inserted_tokens(text, ins, w, after, active); mc::transition();
		for (auto& x : all) if (x.word == w && x.after == (bool)after) {
			if (!x.ending && x.active != open) {
				bool keep = (open & 1) && (x.active & 1); // the first is first
				if (open & 2 && !(keep && (x.active & 2))) { want += "</B>"; open &= ~2; }
				if (open & 1 && !keep) { want += "</a>"; open &= ~1; }
				if ((x.active & 1) && !(open & 1)) { want += "<a>"; open |= 1; } if ((x.active & 2) && !(open & 2)) { want += "<B>"; open |= 2; }
			}
			want += x.text;
		}
		if (!after) { text += L'w'; want += 'w'; }
	}
	size_t left = 0; for (auto& x : all) left += x.word >= 2;
	MC_CHECK(ins.size() == left, "html.lists", "%s: %zu tokens are left to insert instead of %zu", hist.c_str(), ins.size(), left);
	MyText root(html::token_t::root, text, html::has_tokens | html::has_text); W out; Parser::link(out, &root);
	MC_CHECK(out == wide(want), "html.lists", "%s: %s instead of %s", hist.c_str(), q(out).c_str(), pw::q(want).c_str());
	mc::state(mc::hash(hist)); mc::outcome(mc::hash(want) % 256); mc::nontrivial();
}
MC_HARNESS(merging)
{
	std::vector<std::unique_ptr<html::token>> t; for (int i = 0; i < 4; ++i) t.emplace_back(new MyToken());
	auto list = [&](std::vector<size_t>& v) { html::token_list l; size_t n = mc::choose(5); for (size_t i = 0; i < n; ++i) { v.push_back(mc::choose(4)); l.push_back(t[v.back()].get()); } return l; };
	std::vector<size_t> va, vb; auto a = list(va); mc::job(); auto b = list(vb); auto want = a;
	for (auto x : b) if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x);
	MyParser::merge(a, b); mc::transition();
	MC_CHECK(a == want, "html.lists", "lists of %zu and %zu tokens are merged to %zu instead of %zu, or others", va.size(), vb.size(), a.size(), want.size());
	// tags of tokens
	std::string s = "x"; W w = L"x"; size_t n = 0, m = 0; for (auto x : b) { n += x->append_tag(s); m += x->append_tag(w); s += 'y'; w += L'y'; }
	MC_CHECK(n == s.size() - 1 - b.size() && m == w.size() - 1 - b.size(), "html.tags", "tags of %zu tokens are said to be %zu and %zu characters long", b.size(), n, m);
	MC_CHECK(b.empty() || n <= b.size() * html::token_tag_max, "html.tags", "tags are too long");
	size_t i = 0, j = 0; bool none = !html::token::parse_tag(s.c_str(), i) && !html::token::parse_tag(w.c_str(), j) && !i && !j; MC_CHECK(none, "html.tags", "a tag is found where there is none");
	i = j = 1;
	for (auto x : b) { bool ok = html::token::parse_tag(s.c_str(), i) == x && html::token::parse_tag(w.c_str(), j) == x && s[i] == 'y' && w[j] == 'y'; MC_CHECK(ok, "html.tags", "tag is read as another token"); ++i; ++j; }
	mc::state(va.size() * 64 + vb.size() * 8 + want.size()); mc::outcome(want.size()); mc::nontrivial();
}
