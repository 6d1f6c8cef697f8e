// P12: what a parser of SGML text finds in a text spelled with references is what its wide sibling finds in the text they stand for.
#include "pcases.h"

// spellings of one character, the plain one first
static std::vector<std::string> spellings(unsigned char c)
{
	std::vector<std::string> v;
	if (c != '&' && c < 0x80) v.push_back(std::string(1, (char)c));
	switch (c) {
	case '&': v.push_back("&amp;"); break; case '<': v.push_back("&lt;"); break; case '>': v.push_back("&gt;"); break; case '"': v.push_back("&quot;"); break;
	case '+': v.push_back("&plus;"); break; case ',': v.push_back("&comma;"); break; case '.': v.push_back("&period;"); break; case ':': v.push_back("&colon;"); break; case ';': v.push_back("&semi;"); break;
	case '/': v.push_back("&sol;"); break; case '(': v.push_back("&lpar;"); break; case ')': v.push_back("&rpar;"); break; case '%': v.push_back("&percnt;"); break; case '@': v.push_back("&commat;"); break;
	case '?': v.push_back("&quest;"); break; case '$': v.push_back("&dollar;"); break; case '[': v.push_back("&lsqb;"); break; case ']': v.push_back("&rsqb;"); break; case '#': v.push_back("&num;"); break;
	case 0xe9: v.push_back("&eacute;"); break;
	}
	v.push_back(mc::str("&#%u;", c)); v.push_back(mc::str("&#x%x;", c)); v.push_back(mc::str("&#x%04X;", c));
	return v;
}
struct Rig {
	const pc::Case& c; pc::Leaf<char> n{ true }; pc::Leaf<wchar_t> w{ false };
	std::string enc;
	explicit Rig(const pc::Case& _c) : c(_c) {}

	std::string key(const char* what) const { return mc::str("parser.%s.%s", c.name, what); }
	template <class T> std::string result(pc::SP<T> p, bool ok, const std::vector<size_t>* at)
	{
		if (!ok) return "no match";
		pc::Out o; o.text = false;
		if (at) o.map = [&](size_t i) { MC_CHECK(i < at->size() && (*at)[i] != SIZE_MAX, key("split"), "a match or its part in %s begins or ends at %zu, inside of a reference", enc.c_str(), i); return (*at)[i]; };
		pc::dump<T>(o, "", p); return std::move(o.s);
	}
	void spelled(const std::string& s, const std::string& want, const std::vector<std::string>& parts)
	{
		std::string e; std::vector<size_t> at;
		for (size_t i = 0; i < parts.size(); ++i) { at.push_back(i); at.resize(at.size() + parts[i].size() - 1, SIZE_MAX); e += parts[i]; }
		at.push_back(parts.size()); enc = e;
		auto x = pc::make(c, n); bool ok = x->match(e.data(), 0, e.size()); mc::transition();
		std::string r = result<char>(x, ok, &at);
		MC_CHECK(r == want, key("spelled"), "%s gives %s, but spelled as %s it gives %s", mc::quote(s.data(), s.size()).c_str(), want.c_str(), e.c_str(), r.c_str());
	}
	uint64_t word(const std::string& s)
	{
		const auto u = pc::W<wchar_t>(s);
		auto y = pc::make(c, w); bool ok = y->match(u.data(), 0, u.size()); std::string want = result<wchar_t>(y, ok, nullptr);
		std::vector<std::vector<std::string>> sp; for (unsigned char b : s) { sp.push_back(spellings(b)); }
		// all of them in one way
		for (size_t k = 0; k < 5; ++k) { std::vector<std::string> p; for (auto& v : sp) p.push_back(v[std::min(k, v.size() - 1)]); spelled(s, want, p); }
		// any one in another way, and all but one
		for (size_t i = 0; i < s.size(); ++i) {
			std::vector<std::string> p, r; for (auto& v : sp) { p.push_back(v[0]); r.push_back(v.back()); }
			for (size_t k = 1; k < sp[i].size(); ++k) { p[i] = sp[i][k]; spelled(s, want, p); }
			r[i] = sp[i][0]; spelled(s, want, r);
		}
		if (ok) mc::nontrivial();
		return mc::hash(want);
	}
	void words(size_t depth)
	{
		std::string s; size_t n = mc::choose(depth + 1);
		for (size_t i = 0; i + 1 < n; ++i) { s += mc::pick(c.tokens); if (i == 0) mc::job(); }
		if (n < 2) mc::job();
		uint64_t h = 0;
		for (auto& t : c.tokens) { h += word(n ? s + t : s); if (!n) break; }
		if (!n) for (auto& x : c.samples) for (size_t i = 1; i <= x.size(); ++i) h += word(x.substr(0, i));
		mc::state(mc::hash(s, mc::hash(c.name, strlen(c.name)))); mc::outcome(h);
	}
};
MC_HARNESS(spelled)
{
	const char* only = getenv("CASE");
	auto& all = pc::cases();
	const pc::Case& c = all[mc::choose(all.size())];
	if (!(c.kinds >> pc::sgml & 1) || (only && strcmp(only, c.name))) { mc::job(); return; }
	Rig(c).words(mc::thorough() ? c.deep : c.quick);
}
