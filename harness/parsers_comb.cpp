// P02: leaf parsers and combinators against what their composition denotes, for every small grammar and every short text.
#include "pcases.h"
#include <map>
using namespace stdex::parser;

enum Op { A, B, NOT_A, SET, NOT_SET, AB, ANY, NOOP, BOL, EOL, SPACE, NOT_SPACE, PUNCT, SPUN, leaves, ITER = leaves, SEQ, BRANCH, PERM };
static const char* const op_name[] = { "a", "b", "!a", "{ab}", "!{ab}", "\"ab\"", "any", "noop", "bol", "eol", "space", "!space", "punct", "space|punct", "iter", "seq", "branch", "perm" };
struct Node { int op; size_t min = 0, max = 0; bool greedy = true; std::vector<Node> kids; };
static std::string show(const Node& n)
{
	std::string s = op_name[n.op];
	if (n.op == ITER) s += mc::str("{%zu,%zd,%s}", n.min, (ssize_t)n.max, n.greedy ? "greedy" : "lazy");
	if (!n.kids.empty()) { s += "("; for (auto& k : n.kids) s += (s.back() == '(' ? "" : ",") + show(k); s += ")"; }
	return s;
}
// the reference: characters are units, whatever their spelling
struct Res { long end = -1; size_t start = 0, hit = 0; std::vector<Res> kids; };
static Res eval(const Node& n, const std::string& u, size_t p, int flags)
{
	Res r; r.start = p;
	char c = p < u.size() ? u[p] : 0, lc = flags & match_case_insensitive ? (char)tolower(c) : c;
	bool lb = c == '\n', sp = (c == ' ' || lb) && (!lb || flags & match_multiline);
	auto one = [&](bool yes) { if (c && yes) r.end = (long)p + 1; return r; };
	switch (n.op) {
	case A: return one(lc == 'a');
	case B: return one(lc == 'b');
	case NOT_A: return one(lc != 'a');
	case SET: r.hit = lc == 'b'; return one(lc == 'a' || lc == 'b');
	case NOT_SET: r.hit = (size_t)-1; return one(lc != 'a' && lc != 'b');
	case AB: { auto s = u.substr(std::min(p, u.size()), 2); if (flags & match_case_insensitive) for (auto& x : s) x = (char)tolower(x); if (s == "ab") r.end = (long)p + 2; return r; }
	case ANY: return one(true);
	case NOOP: if (c) r.end = (long)p; return r;
	case BOL: if (!p || u[p - 1] == '\n') r.end = (long)p; return r;
	case EOL: if (!c || lb) r.end = (long)p; return r;
	case SPACE: return one(sp);
	case NOT_SPACE: return one(!sp);
	case PUNCT: return one(c == '&' || c == ',');
	case SPUN: return one((sp || c == '&' || c == ',') && (!lb || flags & match_multiline));
	case ITER: {
		size_t q = p;
		for (size_t i = 0;; ++i) {
			if (i >= n.max || (!n.greedy && i >= n.min)) break;
			Res k = eval(n.kids[0], u, q, flags);
			if (k.end < 0) { if (i < n.min) return r; break; }
			if ((size_t)k.end == q) break; // nothing can be repeated any number of times
			q = (size_t)k.end;
		}
		r.end = (long)q; return r;
	}
	case SEQ: {
		size_t q = p;
		for (auto& k : n.kids) { r.kids.push_back(eval(k, u, q, flags)); if (r.kids.back().end < 0) return r; q = (size_t)r.kids.back().end; }
		r.end = (long)q; return r;
	}
	case BRANCH:
		for (auto& k : n.kids) {
			if (r.end >= 0) { r.kids.emplace_back(); continue; }
			r.kids.push_back(eval(k, u, p, flags));
			if (r.kids.back().end >= 0) { r.end = r.kids.back().end; r.hit = r.kids.size() - 1; }
		}
		return r;
	case PERM: {
		// the first order of elements, lexicographically, in which one follows another
		std::vector<size_t> o(n.kids.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i;
		do {
			size_t q = p; bool ok = true; r.kids.assign(o.size(), Res());
			for (auto i : o) { r.kids[i] = eval(n.kids[i], u, q, flags); if (r.kids[i].end < 0) { ok = false; break; } q = (size_t)r.kids[i].end; }
			if (ok) { r.end = (long)q; return r; }
		} while (std::next_permutation(o.begin(), o.end()));
		return r;
	}
	}
	return r;
}
template <class T>
struct Built {
	pc::SP<T> p; const Node* n; std::vector<Built> kids;
	Built(const Node& node, const pc::Leaf<T>& l) : n(&node)
	{
		for (auto& k : node.kids) kids.emplace_back(k, l);
		std::vector<pc::SP<T>> v; for (auto& k : kids) v.push_back(k.p);
		switch (node.op) {
		case A: p = l.cu('a'); break; case B: p = l.cu('b'); break; case NOT_A: p = l.cu('a', true); break;
		case SET: p = l.set("ab"); break; case NOT_SET: p = l.set("ab", true); break; case AB: p = l.str("ab"); break; case ANY: p = l.any(); break;
		case NOOP: p = std::make_shared<basic_noop<T>>(); break; case BOL: p = std::make_shared<basic_bol<T>>(); break; case EOL: p = std::make_shared<basic_eol<T>>(); break;
		case SPACE: p = l.space(); break; case NOT_SPACE: p = l.space(true); break; case PUNCT: p = l.punct(); break; case SPUN: p = l.space_or_punct(); break;
		case ITER: p = l.many(v[0], node.min, node.max, node.greedy); break;
		case SEQ: p = l.seq(v); break; case BRANCH: p = l.branch(v); break; case PERM: p = l.perm(v); break;
		}
	}
	// what the parser reports is what was derived, down to the parts
	bool same(const Res& r, const std::vector<size_t>& at, size_t units) const
	{
		auto& i = p->interval;
		if (r.end < 0) return i.start > i.end;
		if (r.start > units || (size_t)r.end > units || i.start != at[r.start] || i.end != at[(size_t)r.end]) return false;
		if (n->op == SET || n->op == NOT_SET) return static_cast<basic_set<T>*>(p.get())->hit_offset == r.hit;
		if (n->op == BRANCH && static_cast<basic_branch<T>*>(p.get())->hit_offset != r.hit) return false;
		if (n->op == BRANCH || n->op == SEQ || n->op == PERM) for (size_t k = 0; k < kids.size(); ++k) if (!kids[k].same(r.kids[k], at, units)) return false;
		return true;
	}
};
struct Text { std::string units, raw; std::vector<size_t> at; };
static const std::vector<Text>& texts(bool sg, size_t len)
{
	static std::map<std::pair<bool, size_t>, std::vector<Text>> cache;
	auto& v = cache[{ sg, len }];
	if (!v.empty()) return v;
	std::vector<std::pair<char, std::string>> al{ { 'a', "a" }, { 'b', "b" }, { 'A', "A" }, { ' ', " " }, { '\n', "\n" }, { '&', "&" } };
	if (sg) al = { { 'a', "a" }, { 'a', "&#97;" }, { 'b', "b" }, { 'B', "&#x42;" }, { ' ', " " }, { '\n', "\n" }, { '&', "&amp;" } };
	v.push_back({ "", "", { 0 } });
	for (size_t i = 0, e; i < v.size() && v[i].units.size() < len; ++i)
		for (auto& a : al) { Text t = v[i]; t.units += a.first; t.raw += a.second; t.at.push_back(t.raw.size()); v.push_back(t); }
	return v;
}
template <class T> static void check(const Node& g, bool sg, size_t len)
{
	Built<T> b(g, { sg });
	uint64_t h = 0; bool some = false;
	for (auto& t : texts(sg, len)) {
		const auto w = pc::W<T>(t.raw);
		for (int flags : { match_default, match_case_insensitive, match_multiline, match_case_insensitive | match_multiline }) {
			for (size_t s : { (size_t)0, (size_t)1 }) {
				if (s > t.units.size()) continue;
				Res r = eval(g, t.units, s, flags);
				bool ok = b.p->match(w.data(), t.at[s], w.size(), flags);
				MC_CHECK(ok == (r.end >= 0) && b.same(r, t.at, t.units.size()), mc::str("combinators.%s", op_name[g.op]), "%s%s on %s from %zu, flags %d: %s %zd-%zd instead of %s to %ld (unit), or its parts differ",
					show(g).c_str(), sg ? " (SGML)" : sizeof(T) > 1 ? " (wide)" : "", mc::quote(t.raw.data(), t.raw.size()).c_str(), t.at[s], flags,
					ok ? "match" : "miss", (ssize_t)b.p->interval.start, (ssize_t)b.p->interval.end, r.end >= 0 ? "match" : "miss", r.end);
				h = h * 31 + (uint64_t)(r.end + 1); some |= r.end > (long)s;
				mc::transition();
			}
		}
	}
	mc::outcome(h); if (some) mc::nontrivial();
}
static void run(const Node& g, size_t len)
{
	size_t kind = mc::choose(3);
	if (kind == pc::wide) check<wchar_t>(g, false, len); else check<char>(g, kind == pc::sgml, len);
	mc::state(mc::hash(show(g)) * 3 + kind);
}
static Node leaf() { return Node{ (int)mc::choose(leaves) }; }
static const Node iters[] = { { ITER, 0, SIZE_MAX, true }, { ITER, 1, SIZE_MAX, true }, { ITER, 1, 2, true }, { ITER, 2, 3, false }, { ITER, 0, 2, false }, { ITER, 2, 2, true } };
static Node inner(bool small) // one operator over leaves
{
	static const int few[] = { A, B, SET, AB, EOL, NOT_SPACE }, fewer[] = { A, AB, ANY };
	auto l = [&] { return Node{ small ? mc::pick(fewer) : mc::pick(few) }; };
	size_t o = mc::choose(4);
	if (o == 0) { Node n = mc::pick(iters); n.kids.push_back(l()); return n; }
	Node n{ o == 1 ? SEQ : o == 2 ? BRANCH : PERM }; n.kids.push_back(l()); n.kids.push_back(l()); return n;
}
MC_HARNESS(leaf_parsers) { Node n = leaf(); mc::job(); run(n, mc::thorough() ? 6 : 5); }
MC_HARNESS(flat)
{
	int op = ITER + (int)mc::choose(4);
	Node n = op == ITER ? mc::pick(iters) : Node{ op };
	n.kids.push_back(leaf());
	if (op != ITER) n.kids.push_back(leaf());
	mc::job();
	if (op != ITER && mc::flip()) n.kids.push_back(leaf());
	run(n, mc::thorough() ? 5 : n.kids.size() == 3 ? 3 : 4);
}
MC_HARNESS(nested)
{
	int op = ITER + (int)mc::choose(4);
	Node n = op == ITER ? mc::pick(iters) : Node{ op };
	n.kids.push_back(inner(false));
	mc::job();
	if (op != ITER) n.kids.push_back(inner(!mc::thorough()));
	run(n, mc::thorough() ? 4 : 3);
}
MC_HARNESS(string_sets)
{
	// built from a list of strings, each way
	static const char* const str[] = { "a", "ab", "b", "aB", "&" };
	size_t n = 1 + mc::choose(4); std::vector<std::string> s; for (size_t i = 0; i < n; ++i) s.push_back(mc::pick(str));
	mc::job();
	std::string z; for (auto& x : s) { z += x; z += '\0'; }
	auto test = [&](auto t, auto& p, const char* how) {
		typedef decltype(t) T;
		for (auto& t : texts(false, 3)) for (int flags : { match_default, match_case_insensitive }) {
			size_t hit = SIZE_MAX;
			for (size_t i = 0; i < n && hit == SIZE_MAX; ++i) { auto a = s[i], b = t.raw.substr(0, a.size()); if (flags) for (auto* x : { &a, &b }) for (auto& c : *x) c = (char)tolower(c); if (a == b) hit = i; }
			const auto w = pc::W<T>(t.raw);
			bool ok = p.match(w.data(), 0, w.size(), flags);
			MC_CHECK(ok == (hit != SIZE_MAX) && p.hit_offset == hit && (!ok || (p.interval.start == 0 && p.interval.end == s[hit].size())), "combinators.string_branch", "%s of %zu strings beginning with %s on %s: hit %zd instead of %zd", how, n, s[0].c_str(), mc::quote(t.raw.data(), t.raw.size()).c_str(), (ssize_t)p.hit_offset, (ssize_t)hit);
			mc::transition();
		}
	};
	const auto wz = pc::W<wchar_t>(z); std::vector<std::wstring> ws; for (auto& x : s) ws.push_back(pc::W<wchar_t>(x));
	{ basic_string_branch<char> p(z.data(), z.size()); test('a', p, "a list"); }
	{ std::string zz = z + '\0' + "ab"; basic_string_branch<char> p(zz.data(), zz.size()); test('a', p, "a terminated list"); }
	{ basic_string_branch<wchar_t> p(wz.data(), wz.size()); test(L'a', p, "a wide list"); }
	auto c = [&](size_t i) { return i < n ? s[i].c_str() : (const char*)nullptr; }; auto d = [&](size_t i) { return i < n ? ws[i].c_str() : (const wchar_t*)nullptr; };
	{ basic_string_branch<char> p(c(0), c(1), c(2), c(3), (const char*)nullptr); test('a', p, "arguments"); }
	{ basic_string_branch<wchar_t> p(std::locale(), d(0), d(1), d(2), d(3), (const wchar_t*)nullptr); test(L'a', p, "wide arguments"); }
	if (s.end() == std::find(s.begin(), s.end(), "&")) { sgml_string_branch p(c(0), c(1), c(2), c(3), (const char*)nullptr); test('a', p, "SGML arguments"); }
	mc::state(mc::hash(z)); mc::outcome(mc::hash(z)); if (n > 1) mc::nontrivial();
}
