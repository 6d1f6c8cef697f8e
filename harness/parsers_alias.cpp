// Every parser knows the characters of its grammar by their whole code: a character whose code only ends like that of another
// (U+0131 and '1', octet E9 and 'i') is as foreign to it as any other character beyond ASCII.
// PROP chooses the parsers of one property.
#include "pcases.h"
#include <map>

static int property(const std::string& n)
{
	static const struct { const char* first; int p; } from[] = { { "noop", 2 }, { "integer10", 3 }, { "ipv4", 4 }, { "emoticon", 5 }, { "iban", 6 }, { "chemical", 5 }, { "json", 7 }, { "css_comment", 8 }, { "http_line_break", 7 } };
	static std::map<std::string, int> at;
	if (at.empty()) { int p = 0; for (auto& c : pc::cases()) { for (auto& f : from) if (!strcmp(f.first, c.name)) p = f.p; at[c.name] = p; } }
	return at[n];
}
static const std::vector<const pc::Case*>& mine()
{
	static std::vector<const pc::Case*> v;
	if (v.empty()) for (auto& c : pc::cases()) if (property(c.name) == PROP) v.push_back(&c);
	return v;
}
// longer texts that lead deep into a grammar
static std::vector<std::string> more(const std::string& n)
{
	if (n == "iban") return { "SI56263300012039086", "SI56 2633 0001 2039 086", "GB29NWBK60161331926819", "MT84MALT011000012345MTLCAST001S", "FR1420041010050500013M02606", "LC55HEMM000100010012001200023015" };
	if (n == "creditor") return { "RF18539007547034", "RF18 5390 0754 7034", "RF04 4JBR 2", "RF97C2H5OH" };
	if (n == "si_reference") return { "SI05 1236-17-345679", "SI12 1234567890120", "SI99 1", "SI11 12340-56789-3" };
	if (n == "roman") return { "MCMLXXXIV", "QPMDCLXVI" };
	if (n == "json") return { "\"\\u00e9\\ud83d\\ude00\\b\\f\\n\\r\\t\\/\\\\\"" };
	if (n == "ipv6") return { "fe80:1234:abcd:ef09::1%eth0", "::ffff:abcd" };
	if (n == "html_tag") return { "<td class=\"a\" nowrap id='b' x=y/>", "</td>", "<!DOCTYPE html>", "<!-- a -- b -->", "<?php a?>" };
	if (n == "css_import") return { "@import \"a\";", "@import url(a);" };
	if (n == "phone") return { "+386 (1) 23-45", "[0]1/2" };
	return {};
}
template <class T> static void run(const pc::Case& c, const pc::Leaf<T>& l)
{
	typedef typename std::make_unsigned<T>::type U;
	std::vector<std::string> v;
	{ std::vector<std::string> last{ "" }; for (size_t n = 0; n < (mc::thorough() ? 3u : 2u); ++n) { std::vector<std::string> next; for (auto& a : last) for (auto& b : c.tokens) next.push_back(a + b); v.insert(v.end(), next.begin(), next.end()); last = next; } }
	v.insert(v.end(), c.samples.begin(), c.samples.end());
	for (auto& s : more(c.name)) v.push_back(s);
	const std::string& s = v[mc::choose(v.size())];
	mc::job();
	auto x = pc::make(c, l); bool any = false; uint64_t h = 0;
	std::vector<U> alias;
	for (unsigned a = 0x80; a < 0x100; ++a) alias.push_back((U)a);
	if constexpr (sizeof(T) > 1) for (unsigned hi : { 0x100u, 0xff00u, 0x10000u, 0x80000000u }) for (unsigned a = 0; a < (hi == 0x100 ? 0x100u : 0x80u); ++a) alias.push_back((U)(hi + a));
	for (size_t at = 0; at <= s.size(); ++at) for (int put = 0; put < 2; ++put) { // in the place of a character, or between two
		if (at == s.size() && !put) continue;
		auto w = pc::W<T>(s); if (put) w.insert(at, 1, (T)0);
		for (int flags : { 0, (int)stdex::parser::match_case_insensitive, (int)stdex::parser::match_multiline }) {
			auto result = [&](U a) { w[at] = (T)a; pc::Out o; o.text = false; bool ok = x->match(w.data(), 0, w.size(), flags); o.num("", ok); if (ok) pc::dump<T>(o, "", x.get()); any |= ok; mc::transition(); return std::move(o.s); };
			const std::string want = result((U)0xe9); h = mc::hash(want, h);
			for (U a : alias) {
				if (a == 0x85 || a == 0xa0) continue; // spaces to some
				std::string r = result(a);
				MC_CHECK(r == want, mc::str("parser.%s.alias", c.name), "%s with character %x at %zu%s: %s, with character e9 %s", mc::quote(s.data(), s.size()).c_str(), (unsigned)a, at, flags ? ", flags" : "", r.c_str(), want.c_str());
			}
		}
	}
	if (any) mc::nontrivial();
	mc::state(mc::hash(s, mc::hash(c.name, strlen(c.name), sizeof(T) * 2))); mc::outcome(h);
}
MC_HARNESS(alias)
{
	const pc::Case& c = *mine()[mc::choose(mine().size())];
	int kind = (int)mc::choose(2);
	if (!(c.kinds >> kind & 1)) { mc::job(); return; }
	if (kind == pc::wide) run<wchar_t>(c, { false }); else run<char>(c, { false });
}
