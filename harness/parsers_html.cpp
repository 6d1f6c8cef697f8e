// P08: CSS and HTML tokens: what is matched, where its parts are, and that every text is done with in the end.
#include "html_ref.h"
typedef std::vector<std::string> S;
static size_t L(size_t quick) { return mc::thorough() ? quick + 2 : quick + 1; }
template <class T, class A> static void run(const S& heads, const S& tok, size_t len, A go)
{
	size_t n = mc::choose(len + 2); std::string s = mc::pick(heads); Fin fin;
	if (n > len) { long_words(tok, [&](const std::string& t) { go(s + t, fin); }); mc::outcome(fin.h); if (fin.any) mc::nontrivial(); return; }
	for (size_t i = 0; i + 2 < n; ++i) { s += mc::pick(tok); if (i == 0) mc::job(); }
	if (n < 3) mc::job();
	last(tok, n, len, s, [&](const std::string& s) { go(s, fin); });
	mc::state(mc::hash(s, n * 2 + sizeof(T))); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
}
#define SIMPLE(name, P, ref_, parts, len, heads, ...) \
	template <class T> static void name##_t() { static const S tok __VA_ARGS__; auto p = std::make_shared<P<T>>(); run<T>(heads, tok, L(len), [&](const std::string& s, Fin& fin) { \
		auto r = ref::ref_(s); match<T>("html." #name, p, s, r.i, fin, match_multiline); parts }); } \
	MC_HARNESS(name) { if (mc::flip()) name##_t<wchar_t>(); else name##_t<char>(); }
#define PART(what, a, b, key) MC_CHECK(eq(p->a, b), key, "%s: %s is %s instead of %s", q(s).c_str(), what, sh(p->a).c_str(), sh(b).c_str());
static const S heads_css_comments{ "", "/*" };
SIMPLE(css_comments, basic_css_comment, css_comment, PART("content", content, r.content, "html.css_comments"), 7, heads_css_comments, { "/", "*", "a", "\n", "/*", "*/" })
static const S heads_css_strings{ "", "\"", "'" };
SIMPLE(css_strings, basic_css_string, css_string, PART("content", content, r.content, "html.css_strings"), 7, heads_css_strings, { "\"", "'", "\\", "a", "\n", ")" })
static const S heads_css_uris{ "", "url(", "uRL(" };
SIMPLE(css_uris, basic_css_uri, css_uri, PART("content", content, r.content, "html.css_uris"), 6, heads_css_uris, { "url", "(", "\"", "'", "\\", ")", "a", " ", "\t" })
static const S heads_css_imports{ "", "@import", "@IMPORT " };
SIMPLE(css_imports, basic_css_import, css_import, PART("content", content, r.content, "html.css_imports"), 6, heads_css_imports, { "@", "\"", "'", "\\", "a", " ", "\n", "url(" })
static const S heads_mime_types{ "", "a/b;" };
SIMPLE(mime_types, basic_mime_type, mime_type, PART("type", base_type, r.content, "html.mime_types") PART("subtype", sub_type, r.b, "html.mime_types") PART("charset", charset, r.c, "html.mime_types"), 7, heads_mime_types, { "a", "/", ";", "charset=", "Charset", " ", "\"", "'" })
static const S heads_conditions{ "", "<![" };
SIMPLE(conditions, basic_html_declaration_condition_start, cond_start, PART("condition", condition, r.content, "html.conditions"), 7, heads_conditions, { "<", "!", "[", "a", " ", "]", ">", "\n" })
static const S heads_css_openings{ "" };
SIMPLE(css_openings, basic_css_cdo, cdo, , 6, heads_css_openings, { "<", "!", "-", "a" })
static const S heads_css_closings{ "" };
SIMPLE(css_closings, basic_css_cdc, cdc, , 6, heads_css_closings, { "-", ">", "a" })
static const S heads_condition_ends{ "" };
SIMPLE(condition_ends, basic_html_declaration_condition_end, cond_end, , 6, heads_condition_ends, { "]", ">", "a" })
static const S heads_identifiers{ "" };
SIMPLE(identifiers, basic_html_ident, ident_r, , 7, heads_identifiers, { "a", "=", ">", "/", " ", "\"", "\n" })
static const S heads_values{ "" };
SIMPLE(values, basic_html_value, value_r, PART("content", content, r.content, "html.values"), 7, heads_values, { "a", "=", ">", "/", " ", "\"", "'" })
#define TAG(key) \
	MC_CHECK(p->type == r.type && eq(p->name, r.name), key, "%s: type %d named %s instead of %d %s", q(s).c_str(), (int)p->type, sh(p->name).c_str(), (int)r.type, sh(r.name).c_str()); \
	MC_CHECK(p->attributes.size() == r.attr.size(), key, "%s: %zu attributes instead of %zu", q(s).c_str(), p->attributes.size(), r.attr.size()); \
	for (size_t k = 0; k < r.attr.size(); ++k) MC_CHECK(eq(p->attributes[k].name, r.attr[k].name) && eq(p->attributes[k].value, r.attr[k].value), key, "%s: attribute %zu is %s=%s instead of %s=%s", \
		q(s).c_str(), k, sh(p->attributes[k].name).c_str(), sh(p->attributes[k].value).c_str(), sh(r.attr[k].name).c_str(), sh(r.attr[k].value).c_str());
static const S heads_tags{ "", "<" };
SIMPLE(tags, basic_html_tag, html_tag, TAG("html.tags"), 6, heads_tags, { "<", "a", "/", ">", "=", "\"", "'", " ", "!", "?", "-" })
static const S heads_elements{ "<a ", "</a", "<a b='" };
SIMPLE(elements, basic_html_tag, html_tag, TAG("html.elements"), 6, heads_elements, { "b", "/", ">", "=", "\"", "'", " ", "\n", "<" })
static const S heads_declarations{ "<!", "<!--", "<?", "<![" };
SIMPLE(declarations, basic_html_tag, html_tag, TAG("html.declarations"), 7, heads_declarations, { "b", "!", ">", "=", "-", "?", " ", "\"" })
static const S heads_attributes{ "<a ", "<!a " };
SIMPLE(attributes, basic_html_tag, html_tag, TAG("html.attributes"), 6, heads_attributes, { "b", "b=c", "d=\"e>\"", "f = '/>'", "/", ">", "/>", " ", "=", "--" })
// every change of one character, every missing, added and cut one, in texts of each kind
template <class T> static void changed_t()
{
	struct Sample { int kind; const char* text; };
	static const Sample samples[] = { { 0, "/*a*/" }, { 1, "'a\\'b'" }, { 2, "url(a)" }, { 2, "url( \"a\" )" }, { 3, "@import 'a'" }, { 4, "a/b; charset=c" }, { 4, "a/b;charset=\"c\"d" }, { 5, "<![ a [" },
		{ 6, "<!--" }, { 7, "-->" }, { 8, "]]>" }, { 9, "<!--a-->" }, { 9, "<!DOCTYPE a --b-->" }, { 9, "<?a?>" }, { 9, "<a b='c' d=e />" }, { 9, "</a b>" }, { 10, "a" }, { 11, "'a'" } };
	const Sample& c = samples[mc::choose(sizeof samples / sizeof *samples)]; mc::job();
	const std::string text = c.text; size_t at = mc::choose(text.size() + 1);
	Fin fin;
	auto simple = [&](const std::string& s, auto p, auto r) { match<T>("html.changed", p, s, r.i, fin, match_multiline); };
	auto go = [&](const std::string& s) {
		switch (c.kind) {
		case 0: { auto p = std::make_shared<basic_css_comment<T>>(); auto r = ref::css_comment(s); simple(s, p, r); PART("content", content, r.content, "html.changed") break; }
		case 1: { auto p = std::make_shared<basic_css_string<T>>(); auto r = ref::css_string(s); simple(s, p, r); PART("content", content, r.content, "html.changed") break; }
		case 2: { auto p = std::make_shared<basic_css_uri<T>>(); auto r = ref::css_uri(s); simple(s, p, r); PART("content", content, r.content, "html.changed") break; }
		case 3: { auto p = std::make_shared<basic_css_import<T>>(); auto r = ref::css_import(s); simple(s, p, r); PART("content", content, r.content, "html.changed") break; }
		case 4: { auto p = std::make_shared<basic_mime_type<T>>(); auto r = ref::mime_type(s); simple(s, p, r); PART("charset", charset, r.c, "html.changed") PART("subtype", sub_type, r.b, "html.changed") break; }
		case 5: { auto p = std::make_shared<basic_html_declaration_condition_start<T>>(); auto r = ref::cond_start(s); simple(s, p, r); PART("condition", condition, r.content, "html.changed") break; }
		case 6: simple(s, std::make_shared<basic_css_cdo<T>>(), ref::cdo(s)); break;
		case 7: simple(s, std::make_shared<basic_css_cdc<T>>(), ref::cdc(s)); break;
		case 8: simple(s, std::make_shared<basic_html_declaration_condition_end<T>>(), ref::cond_end(s)); break;
		case 9: { auto p = std::make_shared<basic_html_tag<T>>(); auto r = ref::html_tag(s); simple(s, p, r); TAG("html.changed") break; }
		case 10: simple(s, std::make_shared<basic_html_ident<T>>(), ref::ident_r(s)); break;
		default: { auto p = std::make_shared<basic_html_value<T>>(); auto r = ref::value_r(s); simple(s, p, r); PART("content", content, r.content, "html.changed") break; }
		}
	};
	auto each = [&](const std::string& s) { ending(true, { "a", "b", "'", "\"", "-", ">", "/", "=", "[", "*", ")", " ", "\\" }, s, go); };
	const std::string head = text.substr(0, at), tail = text.substr(std::min(at + 1, text.size()));
	each(head); each(head + tail);
	for (int u = 1; u < 0x80; ++u) { each(head + (char)u + tail); each(head + (char)u + text.substr(at)); }
	mc::state(mc::hash(text, at * 2 + sizeof(T))); mc::outcome(fin.h); if (fin.any) mc::nontrivial();
}
MC_HARNESS(changed) { if (mc::flip()) changed_t<wchar_t>(); else changed_t<char>(); }
