// U08: names of languages and platforms.
#include "mc.h"
#include <stdex/compat.hpp>
#include <stdex/langid.hpp>
#include <stdex/locale.hpp>
#include <stdex/sys_info.hpp>
#include <langinfo.h>
#include <map>
#include <string>
#include <string.h>
#include <sys/wait.h>
#include <vector>

static bool punct(char c) { return c > 0x20 && c < 0x7f && !(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z'); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static std::string fold(const std::string& s, bool separators) { std::string r; for (char c : s) { if (!c) break; r += separators && punct(c) ? '-' : low(c); } return r; }
struct exact { char* p; exact(const std::string& s) { p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); } ~exact() { delete[] p; } };

// Windows language codes published in [MS-LCID]
static const struct { const char* name; unsigned code; } published[] = {
	{"ar", 0x1}, {"bg", 0x2}, {"ca", 0x3}, {"cs", 0x5}, {"da", 0x6}, {"de", 0x7}, {"el", 0x8}, {"en", 0x9}, {"es", 0xa}, {"fi", 0xb}, {"fr", 0xc}, {"he", 0xd}, {"hu", 0xe}, {"is", 0xf}, {"it", 0x10}, {"ja", 0x11}, {"ko", 0x12}, {"nl", 0x13},
	{"pl", 0x15}, {"pt", 0x16}, {"rm", 0x17}, {"ro", 0x18}, {"ru", 0x19}, {"sk", 0x1b}, {"sq", 0x1c}, {"sv", 0x1d}, {"th", 0x1e}, {"tr", 0x1f}, {"ur", 0x20}, {"id", 0x21}, {"uk", 0x22}, {"be", 0x23}, {"sl", 0x24}, {"et", 0x25}, {"lv", 0x26}, {"lt", 0x27},
	{"ar-SA", 0x401}, {"bg-BG", 0x402}, {"ca-ES", 0x403}, {"zh-TW", 0x404}, {"cs-CZ", 0x405}, {"da-DK", 0x406}, {"de-DE", 0x407}, {"de-CH", 0x807}, {"de-AT", 0xc07}, {"de-LU", 0x1007}, {"de-LI", 0x1407}, {"el-GR", 0x408}, {"en-US", 0x409}, {"en-GB", 0x809}, {"en-AU", 0xc09}, {"en-CA", 0x1009}, {"en-NZ", 0x1409}, {"en-IE", 0x1809},
	{"es-MX", 0x80a}, {"fi-FI", 0x40b}, {"fr-FR", 0x40c}, {"fr-BE", 0x80c}, {"fr-CA", 0xc0c}, {"fr-CH", 0x100c}, {"he-IL", 0x40d}, {"hu-HU", 0x40e}, {"is-IS", 0x40f}, {"it-IT", 0x410}, {"it-CH", 0x810}, {"ja-JP", 0x411}, {"ko-KR", 0x412}, {"nl-NL", 0x413}, {"nl-BE", 0x813}, {"pl-PL", 0x415},
	{"pt-BR", 0x416}, {"pt-PT", 0x816}, {"ro-RO", 0x418}, {"ru-RU", 0x419}, {"hr-HR", 0x41a}, {"sk-SK", 0x41b}, {"sq-AL", 0x41c}, {"sv-SE", 0x41d}, {"sv-FI", 0x81d}, {"th-TH", 0x41e}, {"tr-TR", 0x41f}, {"ur-PK", 0x420}, {"id-ID", 0x421}, {"uk-UA", 0x422}, {"be-BY", 0x423}, {"sl-SI", 0x424}, {"et-EE", 0x425}, {"lv-LV", 0x426}, {"lt-LT", 0x427},
	{"fa-IR", 0x429}, {"vi-VN", 0x42a}, {"hy-AM", 0x42b}, {"eu-ES", 0x42d}, {"mk-MK", 0x42f}, {"af-ZA", 0x436}, {"ka-GE", 0x437}, {"fo-FO", 0x438}, {"hi-IN", 0x439}, {"mt-MT", 0x43a}, {"ms-MY", 0x43e}, {"kk-KZ", 0x43f}, {"sw-KE", 0x441}, {"cy-GB", 0x452}, {"gl-ES", 0x456}, {"ga-IE", 0x83c}, {"lb-LU", 0x46e}, {"es-ES", 0xc0a},
	{"nb-NO", 0x414}, {"rm-CH", 0x417}, {"tn-ZA", 0x432}, {"xh-ZA", 0x434}, {"zu-ZA", 0x435}, {"se-NO", 0x43b}, {"ky-KG", 0x440}, {"tk-TM", 0x442}, {"tt-RU", 0x444}, {"bn-IN", 0x445}, {"pa-IN", 0x446}, {"gu-IN", 0x447},
	{"or-IN", 0x448}, {"ta-IN", 0x449}, {"te-IN", 0x44a}, {"kn-IN", 0x44b}, {"ml-IN", 0x44c}, {"as-IN", 0x44d}, {"mr-IN", 0x44e}, {"sa-IN", 0x44f}, {"mn-MN", 0x450}, {"bo-CN", 0x451}, {"lo-LA", 0x454}, {"kok-IN", 0x457},
	{"syr-SY", 0x45a}, {"si-LK", 0x45b}, {"am-ET", 0x45e}, {"ne-NP", 0x461}, {"fy-NL", 0x462}, {"ps-AF", 0x463}, {"fil-PH", 0x464}, {"yo-NG", 0x46a}, {"quz-BO", 0x46b}, {"ba-RU", 0x46d}, {"kl-GL", 0x46f}, {"ii-CN", 0x478},
	{"arn-CL", 0x47a}, {"moh-CA", 0x47c}, {"br-FR", 0x47e}, {"ug-CN", 0x480}, {"mi-NZ", 0x481}, {"oc-FR", 0x482}, {"co-FR", 0x483}, {"gsw-FR", 0x484}, {"sah-RU", 0x485}, {"rw-RW", 0x487}, {"wo-SN", 0x488}, {"ar-IQ", 0x801},
	{"ur-IN", 0x820}, {"se-SE", 0x83b}, {"ms-BN", 0x83e}, {"quz-EC", 0x86b}, {"ar-EG", 0xc01}, {"se-FI", 0xc3b}, {"quz-PE", 0xc6b}, {"ar-LY", 0x1001}, {"zh-SG", 0x1004}, {"es-GT", 0x100a}, {"hr-BA", 0x101a}, {"smj-NO", 0x103b},
	{"ar-DZ", 0x1401}, {"zh-MO", 0x1404}, {"es-CR", 0x140a}, {"fr-LU", 0x140c}, {"smj-SE", 0x143b}, {"ar-MA", 0x1801}, {"es-PA", 0x180a}, {"fr-MC", 0x180c}, {"sma-NO", 0x183b}, {"ar-TN", 0x1c01}, {"en-ZA", 0x1c09},
	{"es-DO", 0x1c0a}, {"sma-SE", 0x1c3b}, {"ar-OM", 0x2001}, {"es-VE", 0x200a}, {"sms-FI", 0x203b}, {"ar-YE", 0x2401}, {"es-CO", 0x240a}, {"smn-FI", 0x243b}, {"ar-SY", 0x2801}, {"en-BZ", 0x2809}, {"es-PE", 0x280a},
	{"ar-JO", 0x2c01}, {"en-TT", 0x2c09}, {"es-AR", 0x2c0a}, {"ar-LB", 0x3001}, {"en-ZW", 0x3009}, {"es-EC", 0x300a}, {"ar-KW", 0x3401}, {"en-PH", 0x3409}, {"es-CL", 0x340a}, {"ar-AE", 0x3801}, {"ar-BH", 0x3c01}, {"es-PY", 0x3c0a},
	{"ar-QA", 0x4001}, {"en-IN", 0x4009}, {"es-BO", 0x400a}, {"en-MY", 0x4409}, {"es-SV", 0x440a}, {"es-HN", 0x480a}, {"es-NI", 0x4c0a}, {"es-PR", 0x500a}, {"es-US", 0x540a},
};
struct Tables {
	std::map<std::string, std::vector<unsigned>> codes; std::vector<std::string> names;
	Tables() { for (unsigned c = 0; c < 0x10000; c++) if (auto n = stdex::rfc1766_from_langid((stdex::langid)c)) { auto& v = codes[fold(n, true)]; if (v.empty()) names.push_back(n); v.push_back(c); } }
	void query(const std::string& s) const
	{
		exact e(s); auto c = stdex::langid_from_rfc1766(e.p); auto i = codes.find(fold(s, true)); auto t = mc::quote(s.data(), s.size());
		if (i == codes.end()) MC_CHECK(c == stdex::langid_unknown, "language.unknown", "%s is 0x%x", t.c_str(), c);
		else { bool known = false; for (auto k : i->second) known |= k == c; MC_CHECK(known, "language.code", "%s is 0x%x", t.c_str(), c); }
		mc::transition(1);
	}
};
static const Tables& tables() { static const Tables t; return t; }

// Every code.
MC_HARNESS(codes)
{
	unsigned block = (unsigned)mc::choose(64);
	mc::job();
	auto& t = tables(); unsigned found = 0;
	for (unsigned c = block * 1024; c < block * 1024 + 1024; c++) {
		const char* n = stdex::rfc1766_from_langid((stdex::langid)c); const char* none = "(none)";
		MC_CHECK(stdex::rfc1766_from_langid((stdex::langid)c, none) == (n ? n : none), "language.fallback", "0x%x", c);
		if (n) {
			found++; t.query(n); auto back = stdex::langid_from_rfc1766(n); auto m = stdex::rfc1766_from_langid(back);
			MC_CHECK(m && fold(m, true) == fold(n, true), "language.roundtrip", "0x%x is %s, which is 0x%x, which is %s", c, n, back, m ? m : "unknown");
			if (t.codes.at(fold(n, true)).size() == 1) MC_CHECK(back == c, "language.roundtrip", "0x%x is %s, which is 0x%x", c, n, back);
		}
		MC_CHECK(stdex::primary_langid((stdex::langid)c) + stdex::sub_langid((stdex::langid)c) == c && stdex::primary_langid((stdex::langid)c) == c % 1024, "language.parts", "0x%x is 0x%x and 0x%x", c, stdex::primary_langid((stdex::langid)c), stdex::sub_langid((stdex::langid)c));
		mc::transition(1);
	}
	if (!block) {
		for (auto& p : published) {
			auto n = stdex::rfc1766_from_langid((stdex::langid)p.code); auto c = stdex::langid_from_rfc1766(p.name);
			MC_CHECK(n && !strcmp(n, p.name), "language.published", "0x%x is %s, not %s", p.code, n ? n : "unknown", p.name); MC_CHECK(c == p.code, "language.published", "%s is 0x%x, not 0x%x", p.name, c, p.code); mc::transition(2);
		}
		// Languages differ in name, save for neutral ones (and both Persian); a dialect is named after its language.
		for (auto& k : t.codes) {
			std::vector<unsigned> v; for (auto c : k.second) if (c < 0x6000 && c != 0x8c) v.push_back(c);
			MC_CHECK(v.size() < 2, "language.distinct", "0x%x and 0x%x are both %s", v[0], v[1], k.first.c_str());
			for (auto c : k.second) {
				unsigned p = c % 1024; if (p == 0x14 || p == 0x1a || p == 0x2e || p == 0x3b || p == 0x51 || p == 0x8c) continue; // several languages
				if (auto n = stdex::rfc1766_from_langid((stdex::langid)p)) MC_CHECK(k.first.substr(0, k.first.find('-')) == n, "language.dialect", "0x%x is %s, its language is %s", c, k.first.c_str(), n);
			}
		}
		MC_CHECK(t.names.size() > 300, "language.published", "only %zu names", t.names.size());
		MC_CHECK(!stdex::rfc1766_from_langid(stdex::langid_unknown) && !stdex::rfc1766_from_langid(stdex::langid_neutral), "language.unknown", "unknown and neutral have a name");
	}
	mc::state(block); mc::outcome(found); if (found) mc::nontrivial();
}
// Every name in every letter case, and with one character (thorough: one more of a few) missing, added or replaced by every other.
MC_HARNESS(spellings)
{
	auto& t = tables(); size_t k = mc::choose(t.names.size());
	mc::job();
	const std::string n = t.names[k];
	std::vector<size_t> letters; for (size_t i = 0; i < n.size(); i++) if (low(n[i]) != n[i] || (n[i] >= 'a' && n[i] <= 'z')) letters.push_back(i);
	for (size_t m = 0; m < (size_t)1 << std::min<size_t>(letters.size(), mc::thorough() ? 12 : 8); m++) { std::string s = n; for (size_t b = 0; b < letters.size(); b++) s[letters[b]] = (char)(low(n[letters[b]]) - (m >> b & 1 ? 32 : 0)); t.query(s); }
	auto edits = [&](const std::string& w, const std::string& with) {
		for (size_t i = 0; i <= w.size(); i++) {
			t.query(w.substr(0, i)); t.query(w.substr(i));
			if (i < w.size()) t.query(w.substr(0, i) + w.substr(i + 1));
			for (char c : with) { t.query(w.substr(0, i) + c + w.substr(i)); if (i < w.size()) t.query(w.substr(0, i) + c + w.substr(i + 1)); }
		}
	};
	std::string all, few = "aAzZ-_. 09@[`{/:\x7f\xe0"; for (int c = 1; c < 256; c++) all += (char)c;
	edits(n, all);
	for (size_t i = 0; i <= n.size(); i++) for (char c : few) { edits(n.substr(0, i) + c + n.substr(i), few); if (i < n.size()) edits(n.substr(0, i) + c + n.substr(i + 1), few); }
	mc::state(mc::hash(n)); mc::outcome(t.codes.at(fold(n, true))[0]); mc::nontrivial();
}
// Every short text.
MC_HARNESS(short_texts)
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCXYZ019-_./~@[`{ \x80\xe1\xff"; const size_t n = sizeof al - 1;
	size_t a = mc::choose(n), b = mc::choose(n);
	mc::job();
	auto& t = tables(); std::string s = { al[a] }; t.query(""); t.query(s); s += al[b]; t.query(s);
	for (size_t c = 0; c < n; c++) { t.query(s + al[c]); if (mc::thorough()) for (size_t d = 0; d < n; d++) { t.query(s + al[c] + al[d]); } else for (char d : { '-', 'a', '@' }) t.query(s + al[c] + d); }
	mc::state(mc::hash(s)); mc::outcome(mc::hash(s)); if (t.codes.count(fold(s, true))) mc::nontrivial();
}
// Platforms.
static const struct { const char* name; unsigned code; } platforms[] = { { "aarch64", 0xaa64 }, { "arm", 0x1c4 }, { "i386", 0x14c }, { "x86_64", 0x8664 } };
static void platform(const std::string& s)
{
	exact e(s); unsigned want = 0; for (auto& p : platforms) if (fold(s, false) == p.name) want = p.code;
	unsigned got = (unsigned)stdex::platform_from_name(e.p); MC_CHECK(got == want, "platform", "%s is 0x%x, not 0x%x", mc::quote(s.data(), s.size()).c_str(), got, want); mc::transition(1);
}
MC_HARNESS(platform_names)
{
	const std::string n = mc::pick(platforms).name; size_t i = mc::choose(n.size() + 1);
	mc::job();
	for (size_t m = 0; m < (size_t)1 << n.size(); m++) { std::string s = n; for (size_t b = 0; b < n.size(); b++) if (m >> b & 1 && s[b] >= 'a') s[b] -= 32; platform(s); }
	for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d++) {
		std::string s = n; s.insert(i, 1, (char)c); if (i < n.size()) s[i + 1] = (char)d; platform(s);
		if (i < n.size()) { s = n; s[i] = (char)c; platform(s); if (i + 1 < n.size()) { s[i + 1] = (char)d; platform(s); } s = n; s.erase(i, 1); platform(s); }
		if (!i) platform({ (char)c, (char)d });
	}
	for (size_t k = 0; k <= n.size(); k++) { platform(n.substr(0, k)); platform(n.substr(k)); for (auto& p : platforms) { platform(n.substr(0, k) + p.name); platform(n.substr(k) + p.name); } }
	mc::state(mc::hash(n) + i); mc::outcome(mc::hash(n)); mc::nontrivial();
}
// The system as seen by every kind of user.
MC_HARNESS(system)
{
	static const uid_t users[] = { 0, 1, 65534, 54321 }; uid_t u = mc::pick(users);
	mc::job();
	if (geteuid() != 0 && u != geteuid()) return;
	using info_t = std::remove_const_t<decltype(stdex::sys_info)>;
	pid_t pid = fork();
	if (!pid) {
		int r = 0; if (u && (setgid(u) || setuid(u))) _exit(0);
		info_t i; struct utsname n; uname(&n); struct passwd* pw = getpwuid(u);
		if (i.os_platform != stdex::platform_from_name(n.machine) || (i.os_platform == stdex::platform_id::x86_64) != !strcmp(n.machine, "x86_64")) r = 1;
		else if (i.elevated != (u == 0)) r = 2;
		else if (i.username != (pw ? pw->pw_name : "")) r = 3;
		_exit(r);
	}
	int st = 0; waitpid(pid, &st, 0); static const char* const what[] = { "", "platform", "elevation", "name" };
	MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) < 4, "system.dies", "examining the system dies for user %u", (unsigned)u);
	MC_CHECK(WEXITSTATUS(st) == 0, "system.wrong", "wrong %s of user %u", what[WEXITSTATUS(st)], (unsigned)u);
	MC_CHECK((unsigned)info_t::process_platform == (sizeof(void*) == 8 ? 0x8664 : 0x14c), "system.wrong", "wrong platform of the process");
	mc::transition(1); mc::state(u); mc::outcome(u); mc::nontrivial();
}
