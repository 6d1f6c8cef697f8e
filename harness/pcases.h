// Every parser of parser.hpp, built the way an application builds it, from leaf parsers of one of three kinds:
// narrow text, wide text, and SGML text (entities). dump() writes everything a user may read after a match.
#pragma once
#include "mc.h"
#include <stdex/parser.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <math.h>
#include <string.h>

namespace pc {
	using namespace stdex::parser;
	template <class T> using SP = std::shared_ptr<basic_parser<T>>;
	typedef http_weighted_value<http_media_range, http_any_type> media_weighted;
	enum Kind { narrow, wide, sgml };

	struct Out {
		std::string s;
		size_t base = 0;
		std::function<size_t(size_t)> map; // text offset to reported offset
		bool text = true;                  // report copies of source text too
		size_t at(size_t i) const { return map ? map(i) : i - base; }
		void name(const char* n) { s += n; s += '='; }
		void iv(const char* n, const stdex::interval<size_t>& i)
		{
			name(n);
			if (i.start > i.end) s += "- ";
			else { char b[48]; snprintf(b, sizeof b, "%zd-%zd ", (ssize_t)at(i.start), (ssize_t)at(i.end)); s += b; }
		}
		void num(const char* n, long long v) { char b[32]; snprintf(b, sizeof b, "%lld ", v); name(n); s += b; }
		void real(const char* n, double v) { char b[40]; snprintf(b, sizeof b, "%.15g ", v); name(n); s += v != v ? "nan " : b; }
		template <class S> void str(const char* n, const S& v)
		{
			if (!text) return;
			name(n); s += '"';
			for (auto c : v) { unsigned u = sizeof c == 1 ? (unsigned char)c : (unsigned)c; if (u >= 0x20 && u < 0x7f) s += (char)u; else { char b[16]; snprintf(b, sizeof b, "\\%x", u); s += b; } }
			s += "\" ";
		}
		template <class T> void z(const char* n, const T* p) { str(n, std::basic_string<T>(p)); }
	};

	template <class T> void dump(Out& o, const char* n, basic_parser<T>* p);
	template <class T, class P> void dump(Out& o, const char* n, const std::shared_ptr<P>& p) { dump<T>(o, n, p.get()); }

	// --- the parts of a composite parser, by type
	template <class T> void parts(Out& o, basic_parser<T>* p)
	{
		if (auto q = dynamic_cast<basic_integer10ts<T>*>(p)) { o.num("v", q->value); o.num("digits", q->digit_count); o.num("sep", q->has_separators); }
		else if (auto q = dynamic_cast<basic_integer<T>*>(p)) o.num("v", q->value);
		else if (auto q = dynamic_cast<basic_set<T>*>(p)) o.num("hit", q->hit_offset);
		else if (auto q = dynamic_cast<basic_branch<T>*>(p)) o.num("hit", q->hit_offset);
		else if (auto q = dynamic_cast<basic_fraction<T>*>(p)) { dump<T>(o, "n", q->numerator); dump<T>(o, "l", q->fraction_line); dump<T>(o, "d", q->denominator); }
		else if (auto q = dynamic_cast<basic_score<T>*>(p)) { dump<T>(o, "home", q->home); dump<T>(o, "sep", q->separator); dump<T>(o, "guest", q->guest); }
		else if (auto q = dynamic_cast<basic_signed_numeral<T>*>(p)) { dump<T>(o, "+", q->positive_sign); dump<T>(o, "-", q->negative_sign); dump<T>(o, "+-", q->special_sign); dump<T>(o, "num", q->number); }
		else if (auto q = dynamic_cast<basic_mixed_numeral<T>*>(p)) { dump<T>(o, "+", q->positive_sign); dump<T>(o, "-", q->negative_sign); dump<T>(o, "+-", q->special_sign); dump<T>(o, "int", q->integer); dump<T>(o, "frac", q->fraction); }
		else if (auto q = dynamic_cast<basic_scientific_numeral<T>*>(p)) {
			dump<T>(o, "+", q->positive_sign); dump<T>(o, "-", q->negative_sign); dump<T>(o, "+-", q->special_sign); dump<T>(o, "int", q->integer);
			dump<T>(o, "point", q->decimal_separator); dump<T>(o, "dec", q->decimal); dump<T>(o, "e", q->exponent_symbol);
			dump<T>(o, "e+", q->positive_exp_sign); dump<T>(o, "e-", q->negative_exp_sign); dump<T>(o, "exp", q->exponent); o.real("v", q->value);
		}
		else if (auto q = dynamic_cast<basic_monetary_numeral<T>*>(p)) {
			dump<T>(o, "+", q->positive_sign); dump<T>(o, "-", q->negative_sign); dump<T>(o, "+-", q->special_sign); dump<T>(o, "cur", q->currency);
			dump<T>(o, "int", q->integer); dump<T>(o, "point", q->decimal_separator); dump<T>(o, "dec", q->decimal);
		}
		else if (auto q = dynamic_cast<basic_ipv4_address<T>*>(p)) { if (q->interval) for (auto& c : q->components) o.iv("c", c); o.num("v", ntohl(q->value.s_addr)); }
		else if (auto q = dynamic_cast<basic_ipv6_address<T>*>(p)) {
			if (q->interval) for (auto& c : q->components) o.iv("c", c);
			for (size_t i = 0; i < 8; ++i) o.num("w", q->value.s6_addr[2 * i] << 8 | q->value.s6_addr[2 * i + 1]);
			dump<T>(o, "scope", q->scope_id);
		}
		else if (auto q = dynamic_cast<basic_url_path<T>*>(p)) { o.iv("path", q->path); o.iv("query", q->query); o.iv("bookmark", q->bookmark); }
		else if (auto q = dynamic_cast<basic_url<T>*>(p)) {
			dump<T>(o, "http", q->http_scheme); dump<T>(o, "ftp", q->ftp_scheme); dump<T>(o, "mailto", q->mailto_scheme); dump<T>(o, "file", q->file_scheme);
			dump<T>(o, "user", q->username); dump<T>(o, "pass", q->password); dump<T>(o, "ip4", q->ipv4_host); dump<T>(o, "ip6", q->ipv6_host); dump<T>(o, "dns", q->dns_host);
			dump<T>(o, "port", q->port); dump<T>(o, "path", q->path);
		}
		else if (auto q = dynamic_cast<basic_email_address<T>*>(p)) { dump<T>(o, "user", q->username); dump<T>(o, "ip4", q->ipv4_host); dump<T>(o, "ip6", q->ipv6_host); dump<T>(o, "dns", q->dns_host); }
		else if (auto q = dynamic_cast<basic_emoticon<T>*>(p)) { dump<T>(o, "emo", q->emoticon); dump<T>(o, "apex", q->apex); dump<T>(o, "eyes", q->eyes); dump<T>(o, "nose", q->nose); dump<T>(o, "mouth", q->mouth); }
		else if (auto q = dynamic_cast<basic_date<T>*>(p)) { o.num("fmt", q->format); dump<T>(o, "d", q->day); dump<T>(o, "m", q->month); dump<T>(o, "y", q->year); }
		else if (auto q = dynamic_cast<basic_time<T>*>(p)) { dump<T>(o, "h", q->hour); dump<T>(o, "m", q->minute); dump<T>(o, "s", q->second); dump<T>(o, "ms", q->millisecond); }
		else if (auto q = dynamic_cast<basic_angle<T>*>(p)) {
			dump<T>(o, "deg", q->degree); dump<T>(o, "degsep", q->degree_separator); dump<T>(o, "min", q->minute); dump<T>(o, "minsep", q->minute_separator);
			dump<T>(o, "sec", q->second); dump<T>(o, "secsep", q->second_separator); dump<T>(o, "dec", q->decimal);
		}
		else if (auto q = dynamic_cast<basic_phone_number<T>*>(p)) o.str("v", q->value);
		else if (auto q = dynamic_cast<basic_iban<T>*>(p)) { o.z("cc", q->country); o.z("check", q->check_digits); o.z("bban", q->bban); o.num("valid", q->is_valid); }
		else if (auto q = dynamic_cast<basic_creditor_reference<T>*>(p)) { o.z("check", q->check_digits); o.z("ref", q->reference); o.num("valid", q->is_valid); }
		else if (auto q = dynamic_cast<basic_si_reference<T>*>(p)) { o.z("model", q->model); o.iv("p1", q->part1.interval); o.iv("p2", q->part2.interval); o.iv("p3", q->part3.interval); o.num("valid", q->is_valid); }
		else if (auto q = dynamic_cast<basic_chemical_formula<T>*>(p)) { o.num("digits", q->has_digits); o.num("charge", q->has_charge); }
		else if (auto q = dynamic_cast<basic_json_string<T>*>(p)) o.str("v", q->value);
		else if (auto q = dynamic_cast<basic_css_comment<T>*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<basic_css_string<T>*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<basic_css_uri<T>*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<basic_css_import<T>*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<basic_mime_type<T>*>(p)) { o.iv("base", q->base_type); o.iv("sub", q->sub_type); o.iv("charset", q->charset); }
		else if (auto q = dynamic_cast<basic_html_value<T>*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<basic_html_tag<T>*>(p)) {
			o.num("type", (int)q->type); o.iv("name", q->name);
			for (auto& a : q->attributes) { o.iv("a", a.name); o.iv("av", a.value); }
		}
		else if (auto q = dynamic_cast<basic_html_declaration_condition_start<T>*>(p)) o.iv("cond", q->condition);
	}
	// HTTP parsers (narrow only)
	inline void http(Out& o, basic_parser<char>* p);
	inline void parts_http(Out& o, basic_parser<char>* p)
	{
		if (auto q = dynamic_cast<http_quoted_string*>(p)) o.iv("content", q->content);
		else if (auto q = dynamic_cast<http_value*>(p)) { dump<char>(o, "string", &q->string); dump<char>(o, "token", &q->token); }
		else if (auto q = dynamic_cast<http_parameter*>(p)) { dump<char>(o, "name", &q->name); dump<char>(o, "value", &q->value); }
		else if (auto q = dynamic_cast<http_media_range*>(p)) {
			dump<char>(o, "type", &q->type); dump<char>(o, "subtype", &q->subtype);
			if (auto m = dynamic_cast<http_media_type*>(p)) for (auto& x : m->params) dump<char>(o, "p", &x);
		}
		else if (auto q = dynamic_cast<http_url_port*>(p)) o.num("v", q->value);
		else if (auto q = dynamic_cast<http_url_path*>(p)) { for (auto& x : q->segments) o.iv("seg", x.interval); }
		else if (auto q = dynamic_cast<http_url_parameter*>(p)) { o.iv("name", q->name); o.iv("value", q->value); }
		else if (auto q = dynamic_cast<http_url*>(p)) { o.iv("server", q->server.interval); dump<char>(o, "port", &q->port); dump<char>(o, "path", &q->path); for (auto& x : q->params) dump<char>(o, "p", &x); }
		else if (auto q = dynamic_cast<http_language*>(p)) { for (auto& x : q->components) o.iv("c", x); }
		else if (auto q = dynamic_cast<http_weight*>(p)) o.real("v", q->value);
		else if (auto q = dynamic_cast<http_weighted_value<http_language>*>(p)) { dump<char>(o, "*", &q->asterisk); dump<char>(o, "v", &q->value); dump<char>(o, "q", &q->factor); }
		else if (auto q = dynamic_cast<http_weighted_value<http_media_range, http_any_type>*>(p)) { dump<char>(o, "*", &q->asterisk); dump<char>(o, "v", &q->value); dump<char>(o, "q", &q->factor); }
		else if (auto q = dynamic_cast<http_weighted_value<http_token>*>(p)) { dump<char>(o, "*", &q->asterisk); dump<char>(o, "v", &q->value); dump<char>(o, "q", &q->factor); }
		else if (auto q = dynamic_cast<http_cookie_parameter*>(p)) { dump<char>(o, "name", &q->name); dump<char>(o, "value", &q->value); }
		else if (auto q = dynamic_cast<http_cookie*>(p)) { dump<char>(o, "name", &q->name); dump<char>(o, "value", &q->value); for (auto& x : q->params) dump<char>(o, "p", &x); }
		else if (auto q = dynamic_cast<http_agent*>(p)) { o.iv("type", q->type); o.iv("version", q->version); }
		else if (auto q = dynamic_cast<http_protocol*>(p)) { o.iv("type", q->type); o.iv("maj", q->version_maj); o.iv("min", q->version_min); o.num("v", q->version); }
		else if (auto q = dynamic_cast<http_request*>(p)) { o.iv("verb", q->verb); dump<char>(o, "url", &q->url); dump<char>(o, "proto", &q->protocol); }
		else if (auto q = dynamic_cast<http_header*>(p)) { o.iv("name", q->name); o.iv("value", q->value); }
	}
	template <class T> void dump(Out& o, const char* n, basic_parser<T>* p)
	{
		if (!p) return;
		o.iv(n, p->interval);
		o.s += '{';
		parts<T>(o, p);
		if constexpr (sizeof(T) == 1) parts_http(o, p);
		o.s += '}';
	}
	template <class T> std::string dumped(basic_parser<T>* p, size_t base = 0) { Out o; o.base = base; dump<T>(o, "", p); return std::move(o.s); }

	template <class T> std::basic_string<T> W(const std::string& s) { std::basic_string<T> r; for (unsigned char c : s) r += (T)c; return r; } // Latin1

	// One character, folding ASCII only (there is no std::ctype<char16_t> on Linux)
	struct cu16 : basic_parser<char16_t> {
		char16_t c; bool inv;
		cu16(char16_t c, bool inv) : c(c), inv(inv) {}
		static char16_t fold(char16_t c) { return c >= 'A' && c <= 'Z' ? (char16_t)(c + 32) : c; }
		bool do_match(const char16_t* text, size_t start, size_t end, int flags) override
		{
			if (start < end && text[start] && (flags & match_case_insensitive ? fold(text[start]) == fold(c) : text[start] == c) != inv) { this->interval.end = (this->interval.start = start) + 1; return true; }
			this->interval.invalidate();
			return false;
		}
	};

	// --- leaf parsers of a kind
	template <class T>
	struct Leaf {
		bool sg;
		template <class P, class... A> static std::shared_ptr<P> mk(A&&... a) { return std::make_shared<P>(std::forward<A>(a)...); }
		SP<T> any() const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_any_cp>(); return mk<basic_any_cu<T>>(); }
		SP<T> cu(char c, bool inv = false) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_cp>(&c, 1, inv); if constexpr (sizeof(T) == 2) return mk<cu16>((T)c, inv); else return mk<basic_cu<T>>((T)c, inv); }
		SP<T> space(bool inv = false) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_space_cp>(inv); return mk<basic_space_cu<T>>(inv); }
		SP<T> punct(bool inv = false) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_punct_cp>(inv); return mk<basic_punct_cu<T>>(inv); }
		SP<T> space_or_punct(bool inv = false) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_space_or_punct_cp>(inv); return mk<basic_space_or_punct_cu<T>>(inv); }
		std::shared_ptr<basic_set<T>> set(const char* s, bool inv = false) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_cp_set>(s, strlen(s), inv); return mk<basic_cu_set<T>>(W<T>(s).c_str(), strlen(s), inv); }
		SP<T> str(const char* s) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_string>(s); return mk<basic_string<T>>(W<T>(s).c_str()); }
		SP<T> many(SP<T> e, size_t min = 1, size_t max = SIZE_MAX, bool greedy = true) const { return mk<basic_iterations<T>>(e, min, max, greedy); }
		SP<T> seq(std::vector<SP<T>> v) const { return mk<basic_sequence<T>>(std::move(v)); }
		SP<T> branch(std::vector<SP<T>> v) const { return mk<basic_branch<T>>(std::move(v)); }
		SP<T> perm(std::vector<SP<T>> v) const { return mk<basic_permutation<T>>(std::move(v)); }
		std::shared_ptr<basic_integer10<T>> int10() const { return mk<basic_integer10<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9')); }
		std::shared_ptr<basic_integer10ts<T>> int10ts() const { return mk<basic_integer10ts<T>>(int10(), set(".,")); }
		std::shared_ptr<basic_integer16<T>> int16() const
		{
			return mk<basic_integer16<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), cu('a'), cu('b'), cu('c'), cu('d'), cu('e'), cu('f'));
		}
		std::shared_ptr<basic_roman_numeral<T>> roman() const { return mk<basic_roman_numeral<T>>(cu('I'), cu('V'), cu('X'), cu('L'), cu('C'), cu('D'), cu('M'), cu('P'), cu('Q')); }
		std::shared_ptr<basic_ipv4_address<T>> ip4() const { return mk<basic_ipv4_address<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), cu('.')); }
		SP<T> scope_char() const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_ipv6_scope_id_char>(); return mk<basic_ipv6_scope_id_char<T>>(); }
		std::shared_ptr<basic_ipv6_address<T>> ip6(bool scope = true) const
		{
			return mk<basic_ipv6_address<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), cu('a'), cu('b'), cu('c'), cu('d'), cu('e'), cu('f'),
				cu(':'), scope ? cu('%') : nullptr, scope ? many(scope_char()) : nullptr);
		}
		std::shared_ptr<basic_dns_domain_char<T>> dns_char(bool idn = true) const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_dns_domain_char>(idn); return mk<basic_dns_domain_char<T>>(idn); }
		std::shared_ptr<basic_dns_name<T>> dns(bool absolute = true) const { return mk<basic_dns_name<T>>(absolute, dns_char(), cu('.')); }
		SP<T> user_char() const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_url_username_char>(); return mk<basic_url_username_char<T>>(); }
		SP<T> pass_char() const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_url_password_char>(); return mk<basic_url_password_char<T>>(); }
		SP<T> path_char() const { if constexpr (sizeof(T) == 1) if (sg) return mk<sgml_url_path_char>(); return mk<basic_url_path_char<T>>(); }
		std::shared_ptr<basic_url_path<T>> url_path() const { return mk<basic_url_path<T>>(path_char(), cu('?'), cu('#')); }
		std::shared_ptr<basic_url<T>> url() const
		{
			return mk<basic_url<T>>(str("http"), str("ftp"), str("mailto"), str("file"), cu(':'), cu('/'), many(user_char()), many(pass_char()), cu('@'), cu('['), cu(']'),
				ip4(), ip6(), dns(), int10(), url_path());
		}
		std::shared_ptr<basic_email_address<T>> email() const { return mk<basic_email_address<T>>(many(user_char()), cu('@'), cu('['), cu(']'), ip4(), ip6(), dns()); }
		std::shared_ptr<basic_emoticon<T>> emoticon() const { return mk<basic_emoticon<T>>(str("<3"), set("O0"), set(":;"), set("-o"), set(")(")); }
		std::shared_ptr<basic_fraction<T>> fraction() const { return mk<basic_fraction<T>>(int10(), cu('/'), int10()); }
		std::shared_ptr<basic_signed_numeral<T>> signed_num() const { return mk<basic_signed_numeral<T>>(cu('+'), cu('-'), str("+-"), int10()); }
		std::shared_ptr<basic_mixed_numeral<T>> mixed() const { return mk<basic_mixed_numeral<T>>(cu('+'), cu('-'), cu('~'), int10(), space(), fraction()); }
		std::shared_ptr<basic_scientific_numeral<T>> scientific() const { return mk<basic_scientific_numeral<T>>(cu('+'), cu('-'), cu('~'), int10(), cu('.'), int10(), cu('e'), cu('+'), cu('-'), int10()); }
		std::shared_ptr<basic_monetary_numeral<T>> monetary() const { return mk<basic_monetary_numeral<T>>(cu('+'), cu('-'), cu('~'), str("$"), int10(), cu('.'), int10()); }
		std::shared_ptr<basic_date<T>> date(int mask) const { return mk<basic_date<T>>(mask, int10(), int10(), int10(), set("./"), space()); }
		std::shared_ptr<basic_time<T>> time() const { return mk<basic_time<T>>(int10(), int10(), int10(), int10(), set(":."), cu(',')); }
		std::shared_ptr<basic_angle<T>> angle() const { return mk<basic_angle<T>>(int10(), cu('d'), int10(), cu('\''), int10(), cu('"'), seq({ cu('.'), int10() })); }
		std::shared_ptr<basic_phone_number<T>> phone() const { return mk<basic_phone_number<T>>(set("0123456789"), cu('+'), set("(["), set(")]"), set("-/"), space()); }
		std::shared_ptr<basic_chemical_formula<T>> chem() const { return mk<basic_chemical_formula<T>>(branch({ str("Na"), str("H"), str("O") }), set("0123456789"), set("+-")); }
		std::shared_ptr<basic_json_string<T>> json() const
		{
			return mk<basic_json_string<T>>(cu('"'), mk<basic_any_cu<T>>(), cu('\\'), cu('/'), cu('b'), cu('f'), cu('n'), cu('r'), cu('t'), cu('u'), int16());
		}
	};

	// --- the cases
	struct Case {
		const char* name;
		int kinds;                        // mask of 1 << Kind
		std::function<SP<char>(const Leaf<char>&)> n;
		std::function<SP<wchar_t>(const Leaf<wchar_t>&)> w;
		std::vector<std::string> tokens;  // words are sequences of these
		std::vector<std::string> samples; // longer texts: those and all their prefixes
		size_t quick, deep;               // words of up to so many tokens
		bool behind = false;              // looks at the character before the start
		bool copies = false;              // results hold copies of source text
	};
	template <class T> SP<T> make(const Case& c, const Leaf<T>& l) { if constexpr (sizeof(T) == 1) return c.n(l); else return c.w(l); }

	inline const std::vector<Case>& cases()
	{
		static std::vector<Case> v;
		if (!v.empty()) return v;
		typedef std::vector<std::string> S;
#define P3(name, expr, toks, smp, q, d) v.push_back(Case{ name, 7, [](const Leaf<char>& l) -> SP<char> { typedef char T; (void)sizeof(T); return expr; }, [](const Leaf<wchar_t>& l) -> SP<wchar_t> { typedef wchar_t T; (void)sizeof(T); return expr; }, toks, smp, q, d })
#define P2(name, expr, toks, smp, q, d) P3(name, expr, toks, smp, q, d); v.back().kinds = 3
#define PH(name, type, toks, smp, q, d) v.push_back(Case{ name, 1, [](const Leaf<char>&) -> SP<char> { return std::make_shared<type>(); }, nullptr, toks, smp, q, d })
		const S leaf{ "a", "b", "A", " ", "\n", ",", "&", ";", "\xe9" };
		P2("noop", std::make_shared<basic_noop<T>>(), leaf, S{}, 3, 4);
		P3("any", l.any(), leaf, S{}, 3, 4);
		P3("cu", l.cu('b'), leaf, S{}, 3, 4);
		P3("not_cu", l.cu('b', true), leaf, S{}, 3, 4);
		P3("space", l.space(), leaf, S{}, 3, 4);
		P3("not_space", l.space(true), leaf, S{}, 3, 4);
		P3("punct", l.punct(), leaf, S{}, 3, 4);
		P3("not_punct", l.punct(true), leaf, S{}, 3, 4);
		P3("space_or_punct", l.space_or_punct(), leaf, S{}, 3, 4);
		P3("not_space_or_punct", l.space_or_punct(true), leaf, S{}, 3, 4);
		P2("bol", std::make_shared<basic_bol<T>>(), leaf, S{}, 3, 4); v.back().behind = true;
		P2("not_bol", std::make_shared<basic_bol<T>>(true), leaf, S{}, 3, 4); v.back().behind = true;
		P2("eol", std::make_shared<basic_eol<T>>(), leaf, S{}, 3, 4);
		P2("not_eol", std::make_shared<basic_eol<T>>(true), leaf, S{}, 3, 4);
		P3("set", l.set("ba,"), leaf, S{}, 3, 4);
		P3("not_set", l.set("ba,", true), leaf, S{}, 3, 4);
		P3("string", l.str("ab,a"), leaf, (S{ "ab,ab,a" }), 4, 5);
		const S ab{ "a", "b", "c" };
		P3("iterations", l.many(l.cu('a'), 2, 4), ab, S{}, 6, 8);
		P3("iterations_lazy", l.many(l.cu('a'), 2, 4, false), ab, S{}, 6, 8);
		P3("iterations_nested", l.many(l.seq({ l.cu('a'), l.many(l.cu('b'), 0) }), 0), ab, S{}, 6, 8);
		P3("sequence", l.seq({ l.many(l.cu('a'), 0, 2), l.cu('b'), l.branch({ l.cu('a'), l.str("ca") }) }), ab, S{}, 6, 8);
		P3("branch", l.branch({ l.str("ab"), l.cu('b'), l.many(l.set("ac"), 1) }), ab, S{}, 6, 8);
		P2("string_branch", (std::make_shared<basic_string_branch<T>>(W<T>("ab").c_str(), W<T>("a").c_str(), W<T>("bca").c_str(), nullptr)), ab, S{}, 6, 8);
		P3("permutation", l.perm({ l.cu('a'), l.cu('b'), l.many(l.cu('c')) }), ab, S{}, 6, 8);
		P3("permutation_overlap", l.perm({ l.many(l.cu('a'), 0, 1), l.str("ab"), l.str("a") }), ab, S{}, 6, 8);

		P3("integer10", l.int10(), (S{ "0", "1", "9", "12", "a", "." }), (S{ "18446744073709551615" }), 4, 5);
		P3("integer10ts", l.int10ts(), (S{ "1", "20", "345", ".", ",", "a" }), (S{ "1,234,567.890", "12.345.678" }), 5, 6);
		P3("integer16", l.int16(), (S{ "0", "9", "a", "f", "g", "F" }), (S{ "ffffffffffffffff" }), 4, 5);
		P3("roman", l.roman(), (S{ "I", "V", "X", "L", "C", "D", "M", "P", "Q", "a" }), (S{ "MCMXCIX", "MMMMDCCCLXXXVIII" }), 5, 6);
		P3("fraction", l.fraction(), (S{ "1", "23", "/", " ", "a" }), S{}, 5, 6);
		P3("score", std::make_shared<basic_score<T>>(l.int10(), l.cu(':'), l.int10(), l.space()), (S{ "1", "23", ":", " ", "\n", "a" }), S{}, 5, 6);
		P3("signed", l.signed_num(), (S{ "1", "23", "+", "-", "a" }), S{}, 5, 6);
		P3("mixed", l.mixed(), (S{ "1", "23", "/", " ", "\n", "+", "-", "~" }), (S{ "-1 23/1", "~1  1/23" }), 5, 6);
		P3("scientific", l.scientific(), (S{ "1", "20", ".", "e", "+", "-", "~" }), (S{ "-1.20e-1", "+20e+1", ".1e20" }), 5, 6);
		P3("monetary", l.monetary(), (S{ "1", "20", ".", "$", "-", "+" }), (S{ "-$20.1", "+$.1" }), 5, 6);
		P3("ipv4", l.ip4(), (S{ "1", "0", "25", ".", "a", "256" }), (S{ "1.25.256.1", "255.255.255.255", "1.2.3.4.5" }), 5, 6);
		P3("ipv6", l.ip6(), (S{ "1", "ab", ":", "::", "%", "g", "fffff" }), (S{ "1:2:3:4:5:6:7:8", "::1%eth0", "1::8", "1:2:3:4:5:6::8", "1:2:3:4:5:6:7::", "1::2::3", "fe80::1%" }), 5, 6);
		P3("dns_name", l.dns(), (S{ "a", "b1", "-", ".", " " }), (S{ "a-b.c.", "-a", "a-.b" }), 5, 6);
		P3("dns_name_relative", l.dns(false), (S{ "a", "b1", "-", ".", " " }), (S{ "a-b.c.", "-a", "a-.b" }), 5, 6);
		P3("url_path", l.url_path(), (S{ "/", "a", "?", "#", "=", " ", "&" }), S{}, 5, 6);
		P3("url", l.url(), (S{ "http", "://", ":", "@", "a", "b.c", "1.2.3.4", "[::1]", "8", "/", "?" }),
			(S{ "http://a:b@b.c:8/a?b#c", "ftp://a@[::1]:8/", "mailto:a@b.c", "file:///a/b", "mailto:a@[1.2.3.4]", "ftp://a:b@1.2.3.4", "http://a@b.c", "b.c/a", "mailto:a@[::1]", "http://[::1]" }), 3, 4);
		P3("email", l.email(), (S{ "a", ".", "@", "b.c", "[1.2.3.4]", "[::1]", "[", " " }), (S{ "a.b@b.c", "a@[1.2.3.4]", "a@[::1]" }), 4, 5);
		P3("emoticon", l.emoticon(), (S{ "O", ":", ";", "-", "o", ")", "(", "<3" }), (S{ "O:-)))" }), 5, 6);
		P3("date_all", l.date(0x7f), (S{ "1", "12", "31", "2000", ".", "/", " ", "\n" }), (S{ "31.12.2000", "12/31/2000", "2000.12.31", "1. 12 . 2000", "12.2000", "2000/12", "31.12." }), 5, 6);
		P3("date_dmy", l.date(date_format_dmy | date_format_my), (S{ "1", "12", "31", "2000", ".", "/", " ", "\n" }), (S{ "31.12.2000", "12/31/2000", "2000.12.31", "12.2000" }), 5, 6);
		P3("date_dm", l.date(date_format_dm | date_format_md), (S{ "1", "12", "31", "2000", ".", "/", " ", "\n" }), (S{ "31.12.", "12/31/", "31 . 12 ." }), 5, 6);
		P3("date_y", l.date(date_format_ymd | date_format_ym), (S{ "1", "12", "31", "2000", ".", "/", " ", "\n" }), (S{ "2000.12.31", "2000 / 12 / 1" }), 5, 6);
		P3("time", l.time(), (S{ "1", "59", "60", "999", ":", ".", "," }), (S{ "1:59:59,999", "1.59.59" }), 5, 6);
		P3("angle", l.angle(), (S{ "1", "60", "d", "'", "\"", "." }), (S{ "1d1'1\".1", "60d1\"" }), 6, 7);
		P3("phone", l.phone(), (S{ "1", "23", "+", "(", ")", "[", "]", "-", " " }), (S{ "+1(23)1-23", "1 (23", "[1]23" }), 5, 6); v.back().copies = true;
		P2("iban", std::make_shared<basic_iban<T>>(l.space()), (S{ "SI56", "2633", " ", "0120", "NO93", "8601", "111", "7947", "a" }), (S{ "SI56 2633 0001 2039 086", "NO93 8601 1117 947", "GB29 NWBK 6016 1331 9268 19" }), 4, 5);
		P2("creditor", std::make_shared<basic_creditor_reference<T>>(l.space()), (S{ "RF18", "5390", " ", "0754", "AZ", "7", "\n" }), (S{ "RF18 5390 0754 7034", "RF18ZZZZZZZZZZZZZZZZZZZZZ", "RF18ZZZZZZZZZZZZZZZZZZZZZZ" }), 4, 5);
		P2("si_reference", std::make_shared<basic_si_reference<T>>(l.space()), (S{ "SI", "00", "01", "99", "12", "-", " ", "1", "345" }), (S{ "SI00 12-345-1", "SI12 1234567890120", "SI01 1-1-1" }), 4, 5);
		P3("chemical", l.chem(), (S{ "Na", "H", "O", "2", "+", "-", "h" }), S{}, 5, 6);
		P2("json", l.json(), (S{ "\"", "\\", "u", "00e9", "n", "/", "a", "\n", "2028" }), (S{ "\"\\u00e9\\u2028a\\n\\\\\"" }), 5, 6); v.back().copies = true;
		P2("css_comment", std::make_shared<basic_css_comment<T>>(), (S{ "/", "*", "a", "/*", "*/" }), S{}, 5, 6);
		P2("css_cdo", std::make_shared<basic_css_cdo<T>>(), (S{ "<", "!", "-", "--", "a" }), S{}, 5, 6);
		P2("css_cdc", std::make_shared<basic_css_cdc<T>>(), (S{ ">", "-", "--", "a" }), S{}, 5, 6);
		P2("css_string", std::make_shared<basic_css_string<T>>(), (S{ "\"", "'", "\\", "a", "\n" }), S{}, 5, 6);
		P2("css_uri", std::make_shared<basic_css_uri<T>>(), (S{ "url(", "uRL", "\"", "'", "\\", ")", "a", " " }), (S{ "url( \"a\\\"\" )", "url( a b )" }), 5, 6);
		P2("css_import", std::make_shared<basic_css_import<T>>(), (S{ "@import", "@", "\"", "'", "\\", "a", " " }), (S{ "@IMPORT 'a\\''" }), 5, 6);
		P2("mime_type", std::make_shared<basic_mime_type<T>>(), (S{ "a", "/", ";", "charset=", " ", "\"", "'", "b" }), (S{ "a/b; charset=\"b\"", "a/b;CHARSET='a b'", "a/b; charset=a b" }), 5, 6);
		P2("html_ident", std::make_shared<basic_html_ident<T>>(), (S{ "a", "=", ">", "/", " ", "\"" }), S{}, 5, 6);
		P2("html_value", std::make_shared<basic_html_value<T>>(), (S{ "a", "=", ">", "/", " ", "\"", "'" }), S{}, 5, 6);
		P2("html_tag", std::make_shared<basic_html_tag<T>>(), (S{ "<", "a", "/", ">", "!", "?", "--", "=", "\"", "'", " " }),
			(S{ "<a b=c d='e>' f>", "</a b=\"c\">", "<a b / c/>", "<!a -- b -- c!>", "<!---->", "<?a?>", "<a b = \"c\"d>", "<!-- > -->", "</a/>" }), 5, 6);
		P2("condition_start", std::make_shared<basic_html_declaration_condition_start<T>>(), (S{ "<![", "[", "a", " ", "]", "<" }), (S{ "<![ CDATA [" }), 5, 6);
		P2("condition_end", std::make_shared<basic_html_declaration_condition_end<T>>(), (S{ "]", "]]", ">", "a" }), S{}, 5, 6);

		PH("http_line_break", http_line_break, (S{ "\r", "\n", " ", "a" }), S{}, 5, 6);
		PH("http_space", http_space, (S{ "\r", "\n", " ", "\t", "a" }), S{}, 5, 6);
		PH("http_text_char", http_text_char, (S{ "\r", "\n", " ", "\t", "a", "\x1f", "\xe9", "\x7f" }), S{}, 4, 5);
		PH("http_token", http_token, (S{ "a", "-", "(", "=", ";", " ", "\xe9", "\x1f" }), S{}, 4, 5);
		PH("http_quoted_string", http_quoted_string, (S{ "\"", "\\", "a", " ", "\r\n", "\x01" }), S{}, 5, 6);
		PH("http_value", http_value, (S{ "\"", "\\", "a", " ", "=", ";" }), S{}, 5, 6);
		PH("http_parameter", http_parameter, (S{ "a", "=", "\"", " ", "\r\n", ";" }), (S{ "a = \"a=a\"" }), 5, 6);
		PH("http_any_type", http_any_type, (S{ "*", "/", "a" }), S{}, 6, 7);
		PH("http_media_range", http_media_range, (S{ "a", "/", "*", " ", ";" }), S{}, 5, 6);
		PH("http_media_type", http_media_type, (S{ "a", "/", ";", "=", "\"", " " }), (S{ "a/b; c=d; e=\"f\"", "a / b ; c = d ;" }), 6, 7);
		PH("http_url_server", http_url_server, (S{ "a", ":", "/", " ", "." }), S{}, 5, 6);
		PH("http_url_port", http_url_port, (S{ "0", "6", "553", "5", "a" }), S{}, 5, 6);
		PH("http_url_path_segment", http_url_path_segment, (S{ "a", "/", "?", " ", "\x7f" }), S{}, 5, 6);
		PH("http_url_path", http_url_path, (S{ "a", "/", "?", " " }), S{}, 6, 7);
		PH("http_url_parameter", http_url_parameter, (S{ "a", "=", "&", " ", "\x7f" }), S{}, 5, 6);
		PH("http_url", http_url, (S{ "http://", "HTTP://", "a", ":", "80", "/", "?", "=", "&", " " }), (S{ "http://a:80/a/b?a=b&c", "/a?b=&=c&&d" }), 4, 5);
		PH("http_language", http_language, (S{ "a", "sl", "-", "1", "," }), S{}, 5, 6);
		PH("http_weight", http_weight, (S{ "0", "1", ".", "5", "a" }), S{}, 5, 6);
		PH("http_asterisk", http_asterisk, (S{ "*", "a" }), S{}, 5, 6);
		PH("http_weighted_language", http_weighted_value<http_language>, (S{ "sl", "-", "*", ";", "q", "=", "0.5", " " }), (S{ "sl-si ; Q = 0.5" }), 5, 6);
		PH("http_weighted_media", media_weighted, (S{ "a/b", "*/*", "*", ";", "q", "=", "0.5", " " }), (S{ "a/b ; q = 0.5" }), 5, 6);
		PH("http_cookie_parameter", http_cookie_parameter, (S{ "$", "a", "=", "\"", " ", ";" }), S{}, 5, 6);
		PH("http_cookie", http_cookie, (S{ "$", "a", "=", "\"", " ", ";" }), (S{ "a=b; $c=d; $e=\"f\"; g=h", "a = \"b\" ; $c = d ;" }), 6, 7);
		PH("http_agent", http_agent, (S{ "a", "/", "1", " " }), S{}, 6, 7);
		PH("http_protocol", http_protocol, (S{ "HTTP", "/", "1", ".", " ", "\r\n", "a" }), (S{ "HTTP/1.1\r\n", "HTTP/1.10 " }), 5, 6);
		PH("http_request", http_request, (S{ "GET", " ", "/", "\r\n", "HTTP/1.1", "a", "?" }), (S{ "GET / HTTP/1.1\r\nX", "  GET  /a?b  HTTP/1.0 x\n", "GET /\r\n", "GET http://a:1/b HTTP/2 \n" }), 5, 6);
		PH("http_header", http_header, (S{ "A", ":", " ", "\r\n", "b", "\t", "\r" }), (S{ "A: b\r\n c\r\n\r\n", "A : b\r\nC" }), 5, 6);
		return v;
#undef P3
#undef P2
#undef PH
	}
}
