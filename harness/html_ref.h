// Reference for CSS and HTML tokens
#pragma once
#include "pwords.h"
using namespace pw;
using namespace stdex::parser;
static const auto npos = std::string::npos;
static char at(const std::string& s, size_t p) { return p < s.size() ? s[p] : 0; }
static bool blank(char c) { return c && strchr(" \t\r\n\v\f", c); }
static size_t blanks(const std::string& s, size_t p) { while (blank(at(s, p))) ++p; return p; }
static bool is(const std::string& s, size_t p, const char* t) { return p <= s.size() && !strncasecmp(s.c_str() + p, t, strlen(t)); }
static Iv to(size_t p, const std::string& s, const char* t, size_t add) { size_t e = p > s.size() ? npos : s.find(t, p); return e == npos ? Iv() : Iv(p, e + add); }

// --- the reference
namespace ref {
struct R { Iv i, content, b, c; };
static R css_comment(const std::string& s) { R r; if (is(s, 0, "/*")) { Iv i = to(2, s, "*/", 0); if (i) { r.i = Iv(0, i.end + 2); r.content = i; } } return r; }
static Iv css_quoted(const std::string& s, size_t p) // with quotes
{
	if (char q = at(s, p)) if (q == '"' || q == '\'')
		for (size_t e = p + 1; at(s, e); ++e) { if (s[e] == q) return Iv(p, e + 1); if (s[e] == '\\' && at(s, e + 1)) ++e; }
	return Iv();
}
static R css_string(const std::string& s) { R r; r.i = css_quoted(s, 0); if (r.i) r.content = Iv(1, r.i.end - 1); return r; }
static R css_uri(const std::string& s)
{
	R r; if (!is(s, 0, "url(")) return r;
	size_t p = blanks(s, 4);
	if (at(s, p) == '"' || at(s, p) == '\'') {
		Iv i = css_quoted(s, p);
		if (i) { size_t e = blanks(s, i.end); if (at(s, e) == ')') { r.i = Iv(0, e + 1); r.content = Iv(i.start + 1, i.end - 1); } }
		return r;
	}
	size_t e = p, z = p;
	for (; at(s, e) && s[e] != ')'; ++e) { if (s[e] == '\\' && at(s, e + 1)) { ++e; z = e + 1; } else if (!blank(s[e])) z = e + 1; }
	if (at(s, e)) { r.i = Iv(0, e + 1); r.content = Iv(p, z); }
	return r;
}
static R css_import(const std::string& s)
{
	R r; if (!is(s, 0, "@import")) return r;
	Iv i = css_quoted(s, blanks(s, 7));
	if (i) { r.i = Iv(0, i.end); r.content = Iv(i.start + 1, i.end - 1); }
	return r;
}
static R mime_type(const std::string& s)
{
	R r; auto word = [&](size_t p) { size_t e = p; while (at(s, e) && !strchr("/;", s[e]) && !blank(s[e])) ++e; return Iv(p, e); };
	Iv b = word(0); if (b.empty() || at(s, b.end) != '/') return r;
	Iv c = word(b.end + 1); if (c.empty()) return r;
	r.content = b; r.b = c; r.i = Iv(0, c.end);
	if (at(s, c.end) != ';') return r;
	size_t p = blanks(s, c.end + 1); r.i.end = p;
	if (!is(s, p, "charset=")) return r;
	p += 8;
	if (char q = at(s, p)) if (q == '"' || q == '\'') {
		size_t e = s.find(q, p + 1);
		if (e == npos) r.i.end = s.size(); else { r.c = Iv(p + 1, e); r.i.end = e + 1; }
		return r;
	}
	size_t e = p; while (at(s, e) && s[e] != ';' && !blank(s[e])) ++e;
	r.c = Iv(p, e); r.i.end = e;
	return r;
}
static bool closing(const std::string& s, size_t p) { return at(s, p) == '>' || is(s, p, "/>"); }
static Iv ident(const std::string& s, size_t p)
{
	size_t e = p; while (at(s, e) && s[e] != '=' && !closing(s, e) && !blank(s[e])) ++e;
	return e > p || at(s, e) ? Iv(p, e) : Iv(); // empty before anything but the end
}
static Iv html_value(const std::string& s, size_t p, Iv& content)
{
	char q = at(s, p);
	if (q == '"' || q == '\'') {
		size_t e = s.find(q, p + 1); content = e == npos ? Iv() : Iv(p + 1, e);
		return e == npos ? Iv() : Iv(p, e + 1);
	}
	size_t e = p; while (at(s, e) && !closing(s, e) && !blank(s[e])) ++e;
	return content = Iv(p, e);
}
struct Tag { html_sequence_t type = html_sequence_t::unknown; Iv i, name; std::vector<html_attribute> attr; };
static Tag html_tag(const std::string& s)
{
	Tag t, none; size_t p = 1;
	if (at(s, 0) != '<' || !at(s, 1)) return none;
	if (s[1] == '/' && at(s, 2)) { t.type = html_sequence_t::element_end; t.name = ident(s, 2); p = t.name.end; }
	else if (is(s, 1, "!--")) {
		Iv i = to(4, s, "-->", 0); if (!i) return none;
		t.type = html_sequence_t::comment; t.name = i; t.i = Iv(0, i.end + 3); return t;
	}
	else if (s[1] == '!') { t.type = html_sequence_t::declaration; t.name = Iv(2, 2); p = 2; }
	else if (s[1] == '?') {
		Iv i = to(2, s, ">", 0); if (!i) return none;
		t.type = html_sequence_t::instruction; t.i = Iv(0, i.end + 1); if (i.end > 2 && s[i.end - 1] == '?') --i.end; t.name = i; return t;
	}
	else { t.type = html_sequence_t::element_start; t.name = ident(s, 1); p = t.name.end; }
	const bool decl = t.type == html_sequence_t::declaration;
	for (p = blanks(s, p);; ) {
		if (!at(s, p)) return none;
		if (t.type == html_sequence_t::element_start && is(s, p, "/>")) { t.type = html_sequence_t::element; p += 2; break; }
		if (s[p] == '>') { ++p; break; }
		if (decl && is(s, p, "!>")) { p += 2; break; }
		if (decl && is(s, p, "--")) { Iv c = to(p + 2, s, "--", 2); if (!c) return none; p = blanks(s, c.end); continue; }
		Iv n = ident(s, p), v;
		if (n.empty() && s[p] != '=') { ++p; continue; } // nothing known
		p = blanks(s, n.end);
		if (at(s, p) == '=') {
			p = blanks(s, p + 1);
			Iv w = html_value(s, p, v);
			if (w) p = blanks(s, w.end);
		}
		t.attr.push_back({ n, v });
	}
	t.i = Iv(0, p);
	return t;
}
static R cond_start(const std::string& s)
{
	R r; if (!is(s, 0, "<![")) return r;
	Iv i = to(3, s, "[", 1); if (!i || s.find('>') < i.end) return r;
	size_t b = blanks(s, 3), e = i.end - 1; while (e > b && blank(s[e - 1])) --e;
	r.i = Iv(0, i.end); r.content = Iv(b, e); return r;
}
static R lit_of(const std::string& s, const char* t) { R r; if (is(s, 0, t)) r.i = Iv(0, strlen(t)); return r; }
static R cdo(const std::string& s) { return lit_of(s, "<!--"); }
static R cdc(const std::string& s) { return lit_of(s, "-->"); }
static R cond_end(const std::string& s) { return lit_of(s, "]]>"); }
static R ident_r(const std::string& s) { R r; r.i = ident(s, 0); return r; }
static R value_r(const std::string& s) { R r; r.i = html_value(s, 0, r.content); return r; }
}
