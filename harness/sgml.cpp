// SGML entities against independent references: every entity, every code point, every short text, every buffer size.
#include "common.h"
#include "sgml_ref.h"
#include <stdex/sgml.hpp>
#include <map>
typedef std::u32string U;
using stdex::mapping; typedef stdex::mapping_vector<size_t> mapv;

static const std::map<std::string, U>& entities()
{
	static std::map<std::string, U> m;
	if (m.empty()) for (auto& e : ref_entities) { U u(1, (char32_t)e.u[0]); if (e.u[1]) u += (char32_t)e.u[1]; m[e.name] = u; }
	return m;
}
static U composed(const U& s)
{
	static std::map<std::pair<uint32_t, uint32_t>, uint32_t> m;
	if (m.empty()) for (auto& c : ref_composed) m[{ c[0], c[1] }] = c[2];
	U r;
	for (auto c : s) { auto i = r.empty() ? m.end() : m.find({ (uint32_t)r.back(), (uint32_t)c }); if (i != m.end()) r.back() = i->second; else r += c; }
	return r;
}
static void put(std::wstring& o, uint32_t c) { o += (wchar_t)c; }
static void put(std::u16string& o, uint32_t c) { if (c < 0x10000) o += (char16_t)c; else { o += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); o += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
template <class T> static std::basic_string<T> to(const U& u) { std::basic_string<T> o; for (auto c : u) put(o, c); return o; }
static U from(const std::wstring& s) { return U(s.begin(), s.end()); }
static U from(const std::u16string& s)
{
	U o;
	for (size_t i = 0; i < s.size(); i++) { uint32_t c = s[i]; if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00); o += (char32_t)c; }
	return o;
}
template <class T> static std::string sh(const std::basic_string<T>& s) { std::string r; for (auto c : s) r += (uint32_t)c > 32 && (uint32_t)c < 127 ? std::string(1, (char)c) : mc::str("<%x>", (uint32_t)c); return r; }

// --- reference decoder ------------------------------------------------------------------------------
static const struct { int flag; const char* chars; } groups[] = { { stdex::sgml_quot, "\"" }, { stdex::sgml_apos, "'" }, { stdex::sgml_amp, "&" }, { stdex::sgml_lt_gt, "<>" }, { stdex::sgml_bsol, "\\" }, { stdex::sgml_dollar, "$" }, { stdex::sgml_percnt, "%" }, { stdex::sgml_commat, "@" }, { stdex::sgml_num, "#" }, { stdex::sgml_lpar_rpar, "()" }, { stdex::sgml_lcub_rcub, "{}" }, { stdex::sgml_lsqb_rsqb, "[]" } };
static bool skipped(uint32_t c, int flags) { for (auto& g : groups) if ((flags & g.flag) && c < 128 && c && ::strchr(g.chars, (int)c)) return true; return false; }
// Reference at s[i] == '&': its length and meaning, or 0.
static size_t reference_at(const U& s, size_t i, U& u)
{
	size_t k = i + 1; std::string name;
	while (k < s.size() && s[k] != ';' && s[k] != '&' && s[k] != ' ' && !(s[k] >= 9 && s[k] <= 13) && s[k]) name += s[k] < 128 ? (char)s[k] : '\x01', k++;
	if (k >= s.size() || s[k] != ';' || name.empty()) return 0;
	if (name[0] == '#') {
		bool hex = name.size() > 1 && (name[1] == 'x' || name[1] == 'X'); std::string d = name.substr(hex ? 2 : 1); uint64_t v = 0;
		if (d.empty()) return 0;
		for (char c : d) { int x = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (x < 0) return 0; v = std::min<uint64_t>(v * (hex ? 16 : 10) + x, 0x110000); }
		if (!v || v > 0x10FFFF) return 0;
		u = U(1, (char32_t)v);
	} else {
		auto e = entities().find(name); if (e == entities().end()) return 0;
		u = e->second;
	}
	return k - i + 1;
}
template <class T> static std::basic_string<T> decode(const U& s, int skip, mapv* map, mapping<size_t> off, size_t have, size_t* err = nullptr)
{
	std::basic_string<T> o; if (err) *err = stdex::npos;
	for (size_t i = 0; i < s.size();) {
		U u; size_t n = s[i] == '&' ? reference_at(s, i, u) : 0;
		if (s[i] == '&' && !n && err && *err == stdex::npos) *err = i;
		if (n && !skipped((uint32_t)u[0], skip)) {
			if (map) map->push_back(mapping<size_t>(off.from + i, off.to + have + o.size()));
			for (auto c : u) put(o, c);
			i += n;
			if (map) map->push_back(mapping<size_t>(off.from + i, off.to + have + o.size()));
		} else o += (T)s[i++];
	}
	return o;
}
static bool same(const mapv& a, const mapv& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].from != b[i].from || a[i].to != b[i].to) return false; return true; }

// Every size for short texts, the ones that matter for long ones.
static size_t next_size(size_t size, size_t need) { return need > 600 && size >= 2 && size + 3 < need ? need - 3 : size + 1; }
template <class T_to, class T_from> static void check_decode(const U& text, int skip, size_t prefix, bool sizes)
{
	typedef std::basic_string<T_to> S;
	std::vector<T_from> exact; for (auto c : text) exact.push_back((T_from)c);
	mapping<size_t> off(7, 30); mapv want, got; S pre(prefix, (T_to)'>');
	S ref = decode<T_to>(text, skip, &want, off, prefix);
	S o = pre; stdex::sgml2strcat(o, exact.data(), exact.size(), skip, off, &got);
	MC_CHECK(o == pre + ref, "sgml.decode", "%s decodes to %s instead of %s (skip %x)", sh(text).c_str(), sh(o.substr(std::min(prefix, o.size()))).c_str(), sh(ref).c_str(), skip);
	MC_CHECK(same(want, got), "sgml.map", "%s decodes with %zu map entries instead of %zu, or with others", sh(text).c_str(), got.size(), want.size());
	if (!sizes) return;
	std::basic_string<T_from> str(exact.begin(), exact.end());
	{
		S a = pre, b = pre, c = pre, d = pre; mapv m = { { 1, 2 } }, m2 = { { 1, 2 } }, m3;
		stdex::sgml2strcpy(a, exact.data(), exact.size(), skip, off, &m); stdex::sgml2strcpy(b, str, skip, off, &m2); stdex::sgml2strcat(c, str, skip); stdex::sgml2strcat(d, exact.data(), exact.size(), skip);
		mapv w0; decode<T_to>(text, skip, &w0, off, 0);
		MC_CHECK(a == ref && b == ref && c == pre + ref && d == c && same(m, w0) && same(m2, w0), "sgml.decode.ways", "the functions decode %s differently", sh(text).c_str());
		bool ok = stdex::sgml2str<T_to>(exact.data(), exact.size(), skip, off, &m3) == ref && same(m3, w0) && stdex::sgml2str<T_to>(str, skip) == ref;
		MC_CHECK(ok, "sgml.decode.ways", "the functions decode %s differently", sh(text).c_str());
		auto z = exact; z.push_back(0); z.push_back('&'); a.clear(); stdex::sgml2strcat(a, z.data(), z.size(), skip); b.clear(); stdex::sgml2strcat(b, z.data(), SIZE_MAX, skip);
		MC_CHECK(a == ref && b == ref, "sgml.decode.zero", "decoding of %s does not stop at its terminator", sh(text).c_str());
	}
	for (size_t size = prefix ? prefix + 1 : 0; size <= prefix + ref.size() + 3; size = next_size(size, prefix + ref.size())) for (int copy = 0; copy < 2; copy++) {
		std::vector<T_to> buf(size, (T_to)'?'); if (size) { std::copy(pre.begin(), pre.end(), buf.begin()); buf[prefix] = 0; }
		size_t at = copy ? 0 : prefix, n = 0; bool thrown = false; mapv m;
		try { n = copy ? stdex::sgml2strcpy(buf.data(), size, exact.data(), exact.size(), skip, off, &m) : stdex::sgml2strcat(buf.data(), size, exact.data(), exact.size(), skip, off, &m); } catch (const std::invalid_argument&) { thrown = true; }
		MC_CHECK(thrown == (size < at + ref.size() + 1), "sgml.decode.size", "decoding %s (%zu units) at %zu in a buffer of %zu %s", sh(text).c_str(), ref.size(), at, size, thrown ? "is refused" : "succeeds");
		if (thrown) continue;
		mapv w; decode<T_to>(text, skip, &w, off, at);
		S r(buf.data(), buf.data() + at + ref.size());
		MC_CHECK(n == at + ref.size() && r == pre.substr(0, at) + ref && !buf[n], "sgml.decode.buffer", "decoding %s to a buffer of %zu gives %s (%zu)", sh(text).c_str(), size, sh(r).c_str(), n);
		MC_CHECK(same(w, m), "sgml.map", "%s decodes to a buffer with another map", sh(text).c_str());
	}
}
static void check_errors(const U& text)
{
	size_t err; decode<wchar_t>(text, 0, nullptr, mapping<size_t>(0, 0), 0, &err);
	size_t foreign = stdex::npos; for (size_t i = 0; i < text.size() && foreign == stdex::npos; i++) if (text[i] >= 128) foreign = i;
	std::vector<wchar_t> w(text.begin(), text.end()); std::wstring s(text.begin(), text.end());
	size_t a = stdex::sgmlerr(w.data(), w.size()), b = stdex::sgmlerr(w.data(), w.size(), stdex::sgml_full), c = stdex::sgmlerr(s), both = std::min(err, foreign);
	// With and without sgml_full one of the two also refuses characters that are not ASCII (which one is not claimed).
	MC_CHECK(((a == err && b == both) || (a == both && b == err)) && c == a, "sgml.err", "errors in %s are found at %zd and %zd instead of %zd and %zd", sh(text).c_str(), a, b, err, both);
}

// --- encoding ----------------------------------------------------------------------------------------
template <class T> static void check_encode(const U& text, int what, size_t prefix, bool sizes)
{
	std::basic_string<T> t = to<T>(text); std::vector<T> exact(t.begin(), t.end());
	std::string pre(prefix, '>'), o = pre; stdex::str2sgmlcat(o, exact.data(), exact.size(), what);
	MC_CHECK(!o.compare(0, prefix, pre), "sgml.append", "encoding changes what was there before");
	std::string r = o.substr(prefix);
	for (size_t i = 0; i < r.size(); i++) MC_CHECK((uint8_t)r[i] < 128 && (uint8_t)r[i], "sgml.ascii", "%s is encoded as %s which is not ASCII", sh(text).c_str(), r.c_str());
	MC_CHECK(stdex::sgmlerr(r) == stdex::npos && stdex::sgmlerr(r, stdex::sgml_full) == stdex::npos, "sgml.valid", "%s is encoded as %s which is not valid", sh(text).c_str(), r.c_str());
	U plain; for (size_t i = 0; i < r.size();) { if (r[i] == '&') { i = r.find(';', i); if (i == std::string::npos) break; i++; } else plain += (char32_t)r[i++]; }
	for (auto c : plain) MC_CHECK(!skipped((uint32_t)c, what | stdex::sgml_amp), "sgml.forced", "%s is encoded as %s with the character %c as it is (flags %x)", sh(text).c_str(), r.c_str(), (char)c, what);
	std::basic_string<T> back; stdex::sgml2strcat(back, r.data(), r.size());
	MC_CHECK(composed(from(back)) == composed(text), "sgml.roundtrip", "%s is encoded as %s and comes back as %s", sh(text).c_str(), r.c_str(), sh(from(back)).c_str());
	if (text.size() == 1) MC_CHECK(from(back) == text, "sgml.roundtrip", "%s is encoded as %s and comes back as %s", sh(text).c_str(), r.c_str(), sh(from(back)).c_str());
	if (!sizes) return;
	{
		std::string a = pre, b = pre, c = pre; stdex::str2sgmlcpy(a, exact.data(), exact.size(), what); stdex::str2sgmlcpy(b, t, what); stdex::str2sgmlcat(c, t, what);
		auto z = exact; z.push_back(0); z.push_back('x'); z.push_back(0); std::string d, e; stdex::str2sgmlcat(d, z.data(), z.size(), what); stdex::str2sgmlcat(e, z.data(), SIZE_MAX, what);
		MC_CHECK(a == r && b == r && c == o && d == r && e == r && stdex::str2sgml(exact.data(), exact.size(), what) == r && stdex::str2sgml(t, what) == r, "sgml.encode.ways", "the functions encode %s differently", sh(text).c_str());
	}
	for (size_t size = prefix ? prefix + 1 : 0; size <= prefix + r.size() + 3; size = next_size(size, prefix + r.size())) for (int copy = 0; copy < 2; copy++) {
		std::vector<char> buf(size, '?'); if (size) { std::copy(pre.begin(), pre.end(), buf.begin()); buf[prefix] = 0; }
		size_t at = copy ? 0 : prefix, n = 0; bool thrown = false;
		try { n = copy ? stdex::str2sgmlcpy(buf.data(), size, exact.data(), exact.size(), what) : stdex::str2sgmlcat(buf.data(), size, exact.data(), exact.size(), what); } catch (const std::invalid_argument&) { thrown = true; }
		MC_CHECK(thrown == (size < at + r.size() + 1), "sgml.encode.size", "encoding %s (%zu units) at %zu in a buffer of %zu %s", sh(text).c_str(), r.size(), at, size, thrown ? "is refused" : "succeeds");
		if (thrown) continue;
		std::string g(buf.data(), buf.data() + at + r.size());
		MC_CHECK(n == at + r.size() && g == pre.substr(0, at) + r && !buf[n], "sgml.encode.buffer", "encoding %s to a buffer of %zu gives %s (%zu)", sh(text).c_str(), size, g.c_str(), n);
	}
}

MC_HARNESS(every_entity)
{
	size_t n = sizeof ref_entities / sizeof *ref_entities, k = mc::choose(n);
	mc::job();
	const auto& e = ref_entities[k]; U u(1, (char32_t)e.u[0]); if (e.u[1]) u += (char32_t)e.u[1];
	std::string name = e.name; U text = U(1, '&') + U(name.begin(), name.end()) + U(1, ';');
	for (int skip = 0; skip < 0x1000; skip = skip ? skip * 2 : 1) { check_decode<wchar_t, char>(text, skip, 0, !skip); check_decode<char16_t, char16_t>(text, skip, 1, !skip); check_decode<char16_t, wchar_t>(U(1, 'x') + text + text, skip, 0, false); }
	check_errors(text);
	// Names that are nearly this one.
	for (size_t i = 0; i <= name.size(); i++) for (char c : { '\0', '0', 'a', 'z', '~', ':', '\x01' }) for (int del = 0; del < 2; del++) {
		std::string m = name.substr(0, i); if (c) m += c; if (i < name.size()) m += name.substr(i + del);
		if (m.empty()) continue;
		static const std::map<std::string, U>& all = entities(); bool other = false;
		for (auto& p : stdex::sgml_unicode) if (m == p.sgml) { other = true; break; } // the ones the reference does not know
		if (other && all.find(m) == all.end()) continue;
		U t = U(1, '&') + U(m.begin(), m.end()) + U(1, ';'); check_decode<wchar_t, char>(t, 0, 0, false); check_errors(t);
	}
	for (int what : { 0, 1, 0x40000000, 0xfff, 0x40000fff }) { check_encode<wchar_t>(u, what, 0, true); check_encode<char16_t>(u, what, 2, true); }
	mc::transition(100); mc::state(k); mc::outcome(k); mc::nontrivial();
}
MC_HARNESS(every_code_point)
{
	size_t block = mc::choose(0x110000 / 0x400);
	mc::job();
	static const int flags[] = { 0, stdex::sgml_full, 0xfff, stdex::sgml_full | 0xfff, stdex::sgml_c, stdex::sgml_sgml };
	for (uint32_t x = (uint32_t)block * 0x400, end = x + 0x400; x < end; x++) {
		if (!x) continue;
		for (int what : flags) { check_encode<wchar_t>(U(1, x), what, 0, x < 0x3000 || x % 97 == 0); check_encode<char16_t>(U(1, x), what, x % 3, x < 0x3000 || x % 97 == 0); }
		for (int form = 0; form < 3; form++) {
			std::string t = form == 0 ? mc::str("&#%u;", x) : form == 1 ? mc::str("&#x%x;", x) : mc::str("&#X%08X;", x);
			U u(t.begin(), t.end()); check_decode<wchar_t, char>(u, 0, 0, false); check_decode<char16_t, char16_t>(u, 0xfff, 2, x < 0x100 || x % 97 == 0);
		}
		if (x % 16 == 0) check_errors(U{ 'a', x, '&', '#', '1', ';', '&' });
	}
	mc::transition(0x400 * 18); mc::state(block); mc::outcome(block); mc::nontrivial();
}
// Letters with marks, alone and followed by others.
MC_HARNESS(letters_with_marks)
{
	size_t nb = sizeof ref_bases / sizeof *ref_bases, b = mc::choose(nb + 6); int what = mc::flip() ? stdex::sgml_full : 0;
	mc::job();
	static const uint32_t more_bases[] = { '"', '&', '1', 0x17E, 0x1F600, 0x301 }, more_marks[] = { 0x362, 0x20D7, 0xFE20, 0x1DC0, 0x36F, 0x370 };
	uint32_t base = b < nb ? ref_bases[b] : more_bases[b - nb];
	std::vector<uint32_t> marks(ref_marks, ref_marks + sizeof ref_marks / sizeof *ref_marks); marks.insert(marks.end(), more_marks, more_marks + 6);
	for (uint32_t m : marks) for (int form = 0; form < 4; form++) for (uint32_t m2 : marks) {
		if (form != 3 && m2 != marks[0]) continue;
		U u = form == 0 ? U{ base, m } : form == 1 ? U{ 'x', base, m, 'y' } : form == 2 ? U{ base, m, base, m } : U{ base, m, m2 };
		check_encode<wchar_t>(u, what, 0, form < 2); check_encode<char16_t>(u, what, 1, form < 2);
	}
	mc::transition(marks.size() * (marks.size() + 3)); mc::state(mc::hmix(base, what)); mc::outcome(mc::hmix(base, what)); mc::nontrivial();
}
// Every short text that may hold references.
MC_HARNESS(short_texts)
{
	static const char32_t al[] = { '&', '#', 'x', '6', 'a', 'm', 'p', ';', ' ' };
	size_t n = mc::choose(mc::thorough() ? 8 : 7); U s;
	for (size_t i = 0; i < n; i++) { s += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	check_decode<wchar_t, char>(s, 0, 0, n < 6); check_decode<char16_t, wchar_t>(s, stdex::sgml_amp, n % 3, n < 6); check_errors(s);
	mc::transition(2); mc::state(mc::hash(s.data(), s.size() * 4)); mc::outcome(mc::hash(s.data(), s.size() * 4)); if (s.find('&') < s.find(';')) mc::nontrivial();
}
MC_HARNESS(reference_sequences)
{
	static const char* const al[] = { "&amp;", "&quot;", "&lt;", "&Aacute;", "&#65;", "&#x1F600;", "&#38;", "&bogus;", "&", ";", "a", "&#0;", "&#x110000;", "&#x10ffff;", "&#xd800;", "&#4294967361;", "&#abc;", "&#;", "&#x;", "&;", "amp;", "&#x41", "&fjlig;", "&acute;", "\t" };
	size_t n = mc::choose(mc::thorough() ? 5 : 4); std::string t;
	for (size_t i = 0; i < n; i++) { t += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	U s(t.begin(), t.end());
	for (int skip : { 0, (int)stdex::sgml_c, (int)stdex::sgml_sgml, 0xfff }) { check_decode<wchar_t, char>(s, skip, n % 2, n < 3); check_decode<char16_t, char16_t>(s, skip, 1, n < 3); }
	check_errors(s);
	mc::transition(8); mc::state(mc::hash(t)); mc::outcome(mc::hash(t)); if (n > 1) mc::nontrivial();
}
// Every short plain text, all flags in groups, all buffer sizes.
MC_HARNESS(plain_texts)
{
	static const char32_t al[] = { 'a', '&', '<', '"', '\\', ';', 0x301, 0x17E, 0x10D00, 0x1F600, 0x20AC, 0xD83D, 0xDE00, '{' };
	static const int flags[] = { 0, stdex::sgml_full, stdex::sgml_quot | stdex::sgml_bsol, stdex::sgml_lt_gt | stdex::sgml_lcub_rcub | stdex::sgml_amp };
	size_t n = mc::choose(mc::thorough() ? 6 : 5); int what = mc::pick(flags); U s;
	for (size_t i = 0; i < n; i++) { s += mc::pick(al); if (i == 1) mc::job(); }
	if (n < 2) mc::job();
	check_encode<wchar_t>(s, what, n % 2, n < 4);
	U t = from(to<char16_t>(s)); check_encode<char16_t>(t, what, 2, n < 4); // surrogates next to each other are one character
	mc::transition(2); mc::state(mc::hash(s.data(), s.size() * 4)); mc::outcome(mc::hmix(mc::hash(s.data(), s.size() * 4), what)); if (n > 1) mc::nontrivial();
}
// Long texts: every length around 2^16 units (of the source and of the result) x what is repeated x what ends it.
MC_HARNESS(long_texts)
{
	static const char* const al[] = { "a", "&amp;", "&#x1F600;", "&fjlig;b", "&bogus;", "& ", "ab&lt;cd" };
	static const size_t lasts[] = { 0, 1, 4, 2, 3, 5, 6 };
	size_t filler = mc::choose(7), last = lasts[mc::choose(mc::thorough() ? 7 : 2)], which = mc::choose(3), off = mc::choose(3);
	mc::job();
	std::string f = al[filler], l = al[last], t; U fu(f.begin(), f.end());
	size_t unit = std::max<size_t>(1, which == 0 ? f.size() : decode<char16_t>(fu, 0, nullptr, mapping<size_t>(0, 0), 0).size());
	size_t total = (which == 2 ? 131072 : 65536) - unit + off * unit;
	for (size_t n = 0; n < total; n += unit) t += f;
	t += l + "x" + l;
	U s(t.begin(), t.end());
	bool edge = off == 1 && !filler;
	check_decode<wchar_t, char>(s, 0, 0, edge); check_decode<char16_t, char16_t>(s, stdex::sgml_lt_gt, 3, edge && which); check_decode<char16_t, wchar_t>(s, stdex::sgml_amp, 0, false);
	check_errors(s);
	U text = decode<wchar_t>(s, 0, nullptr, mapping<size_t>(0, 0), 0).size() ? from(decode<wchar_t>(s, 0, nullptr, mapping<size_t>(0, 0), 0)) : U();
	check_encode<wchar_t>(text, filler % 2 ? 0 : stdex::sgml_full, 0, edge); check_encode<char16_t>(text, 0xfff, 2, edge && which);
	mc::transition(total); mc::state(mc::hmix(total, filler)); mc::outcome(mc::hmix(mc::hmix(total, filler), last)); mc::nontrivial();
}
// Long things between & and ;.
MC_HARNESS(long_references)
{
	static const char* const al[] = { "a", "z", "p", "0", "9", "#", ";", "A", "x" }; static const char* const start[] = { "&", "&am", "&amp", "&#", "&#x", "&#0", "&CounterClockwiseContourIntegra" }; static const char* const end[] = { ";", "65;", "p;", "&lt;", "" };
	static const size_t more[] = { 1000, 65536, 131072, 65530, 65533, 65534, 65535, 65537, 65538 };
	size_t a = mc::choose(9), b = mc::choose(7), c = mc::choose(5), k = mc::choose(mc::thorough() ? 309 : 78);
	mc::job();
	size_t m = mc::thorough() ? 9 : 3, n = k < m ? more[k] : k - m; std::string t = start[b]; for (size_t i = 0; i < n; i++) t += al[a]; t += end[c];
	U s(t.begin(), t.end()); s = U(1, 'y') + s + U(1, ';') + U(1, '&');
	check_decode<wchar_t, char>(s, 0, 0, k % 32 == 3); check_decode<char16_t, wchar_t>(s, 0, 1, false); check_errors(s);
	mc::transition(n); mc::state(mc::hmix(n, mc::hmix(a, b))); mc::outcome(mc::hmix(n, mc::hmix(mc::hmix(a, b), c))); mc::nontrivial();
}
