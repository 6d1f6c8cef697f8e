#include "common.h"
#include <cmath>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
using namespace stdex::stream;

namespace {
	// One value of a menu: how to write it, what its bytes are, how to read it back and compare.
	struct Item {
		std::string name; bytes enc;
		std::function<void(basic&)> put; std::function<void(memory_file&)> mput;
		std::function<bool(basic&)> get;       // true when the value read equals the one written
		std::function<bool(memory_file&)> mget;
		std::function<bool(basic&)> getz;      // reads with nothing available: must yield an empty value
	};
	std::vector<Item> menu;

	void le(bytes& b, const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); } // host is little endian
	template <class T> bool same(const T& a, const T& b) { return a == b; }
	template <> bool same(const float& a, const float& b) { return memcmp(&a, &b, sizeof a) == 0; }
	template <> bool same(const double& a, const double& b) { return memcmp(&a, &b, sizeof a) == 0; }

	template <class T> void prim(const char* n, T v)
	{
		Item i; i.name = n; le(i.enc, &v, sizeof v);
		i.put = [v](basic& s) { s << v; }; i.mput = [v](memory_file& s) { s << v; };
		i.get = [v](basic& s) { T r = (T)1; basic& q = s >> r; return &q == &s && same(r, v); };
		i.mget = [v](memory_file& s) { T r = (T)1; s >> r; return same(r, v); };
		i.getz = [](basic& s) { T r = (T)1; s >> r; return r == (T)0; };
		menu.push_back(i);
	}
	template <class C> void str(const char* n, const std::basic_string<C>& v)
	{
		Item i; i.name = n; uint32_t c = (uint32_t)v.size(); le(i.enc, &c, 4); le(i.enc, v.data(), v.size() * sizeof(C));
		i.put = [v](basic& s) { s << v; }; i.mput = [v](memory_file& s) { s << v; };
		i.get = [v](basic& s) { std::basic_string<C> r(3, (C)'z'); basic& q = s >> r; return &q == &s && r == v; };
		i.mget = [v](memory_file& s) { std::basic_string<C> r(3, (C)'z'); s >> r; return r == v; };
		i.getz = [](basic& s) { std::basic_string<C> r(3, (C)'z'); s >> r; return r.empty(); };
		menu.push_back(i);
	}
	template <class C> void cstr(const char* n, const std::basic_string<C>& v)
	{
		str(n, v); Item& i = menu.back();
		i.put = [v](basic& s) { s << v.c_str(); }; i.mput = [v](memory_file& s) { s << v.c_str(); };
	}
	template <class V> void coll(const char* n, const V& v)
	{
		Item i; i.name = n; uint32_t c = (uint32_t)v.size(); le(i.enc, &c, 4);
		for (auto& e : v) {
			if constexpr (std::is_same<typename V::value_type, std::string>::value) { uint32_t k = (uint32_t)e.size(); le(i.enc, &k, 4); le(i.enc, e.data(), e.size()); }
			else le(i.enc, &e, sizeof e);
		}
		i.put = [v](basic& s) { s << v; }; i.mput = [v](memory_file& s) { static_cast<basic&>(s) << v; };
		i.get = [v](basic& s) { V r; basic& q = s >> r; return &q == &s && r == v; };
		i.mget = [v](memory_file& s) { V r; static_cast<basic&>(s) >> r; return r == v; };
		i.getz = [](basic& s) { V r; s >> r; return r.empty(); };
		menu.push_back(i);
	}
	void fill()
	{
		if (!menu.empty()) return;
		prim<uint8_t>("u8", 0xFE); prim<uint16_t>("u16", 0x8001); prim<uint32_t>("u32", 0xDEADBEEF); prim<uint64_t>("u64", 0x8877665544332211ull);
		prim<int8_t>("i8", -1); prim<int16_t>("i16", INT16_MIN); prim<int32_t>("i32", -2); prim<int64_t>("i64", INT64_MIN);
		prim<float>("float", -0.0f); prim<double>("double", 1.0 / 3); prim<char>("char", 'Q');
		str<char>("string", "ab"); str<char>("empty string", ""); str<wchar_t>("wstring", L"\x10ffffz"); str<char16_t>("u16string", u"\xd83d\xde00!");
		cstr<char>("C string", "xyz"); cstr<char16_t>("C u16 string", u"q");
		str<char>("string with NUL", std::string("a\0b", 3));
		str<char>("long string", std::string(2500, 'L'));
		coll("vector<u16>", std::vector<uint16_t>{ 1, 0x203 }); coll("vector<string>", std::vector<std::string>{ "p", "", "qr" }); coll("empty vector", std::vector<uint32_t>{});
		coll("set<i32>", std::set<int32_t>{ 5, -5 }); coll("multiset<u8>", std::multiset<uint8_t>{ 3, 3, 1 });
	}
}

MC_HARNESS(typed_roundtrip)
{
	fill();
	size_t n = mc::thorough() ? 3 : 2;
	std::vector<const Item*> seq;
	for (size_t i = 0; i < n; i++) { seq.push_back(&menu[mc::choose(menu.size())]); if (i == 0) mc::job(); MC_LOG("value %s", seq.back()->name.c_str()); }
	bytes enc; std::vector<size_t> ends;
	for (auto i : seq) { enc.insert(enc.end(), i->enc.begin(), i->enc.end()); ends.push_back(enc.size()); }
	// Encoding: generic stream and memory file agree with the documented format (little endian, 32-bit length prefix).
	short_sink out;
	for (auto i : seq) { i->put(out); MC_CHECK(out.ok(), "write.state", "writing %s failed", i->name.c_str()); }
	MC_CHECK(out.data == enc, "format", "stream holds %s, expected %s", show(out.data).c_str(), show(enc).c_str());
	memory_file m;
	if (mc::flip()) { for (auto i : seq) i->mput(m); }
	else { for (auto i : seq) i->put(m); }
	MC_CHECK(m.ok() && m.size() == enc.size() && memcmp(m.data(), enc.data(), enc.size()) == 0, "format.memory", "memory file holds %s, expected %s", mc::quote(m.data(), m.size()).c_str(), show(enc).c_str());
	m.seek(0);
	for (auto i : seq) MC_CHECK(i->mget(m) && m.ok(), "read.memory", "%s read back from a memory file differs", i->name.c_str());
	// Decoding through a source that may cut any read short.
	mc::set_deviation_bound(1);
	short_source in(enc);
	for (auto i : seq) MC_CHECK(i->get(in) && in.ok(), "read", "%s read back differs", i->name.c_str());
	mc::transition(n * 3);
	mc::state(mc::hash(enc.data(), enc.size())); mc::outcome(mc::hash(enc.data(), enc.size())); mc::nontrivial();
}

// A stream that ends too early: every value before the cut is intact, the cut is reported and it is sticky.
MC_HARNESS(typed_truncated)
{
	fill();
	std::vector<const Item*> seq;
	for (size_t i = 0; i < 2; i++) { seq.push_back(&menu[mc::choose(menu.size())]); if (i == 0) mc::job(); }
	bytes enc; std::vector<size_t> ends;
	for (auto i : seq) { enc.insert(enc.end(), i->enc.begin(), i->enc.end()); ends.push_back(enc.size()); }
	if (enc.size() > 200) { if (!mc::thorough()) return; }
	size_t cut = mc::choose(enc.size());
	bool fails = mc::flip();
	MC_LOG("%s, %s cut at %zu (%s)", seq[0]->name.c_str(), seq[1]->name.c_str(), cut, fails ? "error" : "end");
	short_source in(sub(enc, 0, cut), false);
	if (fails) in.fail_at = cut;
	bool broken = false;
	for (size_t i = 0; i < 2; i++) {
		if (broken) { MC_CHECK(seq[i]->getz(in), "sticky", "a value read after the end is not empty"); }
		else {
			bool eq = seq[i]->get(in);
			if (ends[i] <= cut) MC_CHECK(eq && in.ok(), "read", "%s before the cut differs", seq[i]->name.c_str());
			else { MC_CHECK(!in.ok(), "unreported", "%s cut short was read without an error", seq[i]->name.c_str()); broken = true; }
		}
	}
	MC_CHECK(in.state() == (fails ? state_t::fail : state_t::eof), "state", "stream ended with state %s", st_name(in.state()));
	if (!fails) {
		memory_file m; m.write(enc.data(), cut); m.seek(0);
		broken = false;
		for (size_t i = 0; i < 2 && !broken; i++) {
			bool eq = seq[i]->mget(m);
			if (ends[i] <= cut) MC_CHECK(eq && m.ok(), "read.memory", "%s before the cut differs", seq[i]->name.c_str());
			else { MC_CHECK(m.state() == state_t::eof, "unreported.memory", "%s cut short was read with state %s", seq[i]->name.c_str(), st_name(m.state())); broken = true; }
		}
	}
	mc::transition(2); mc::state(mc::hash(enc.data(), cut)); mc::outcome(mc::hash(enc.data(), cut, fails)); mc::nontrivial();
}

// Writing to a destination that fails: later chained writes are skipped and the failure stays visible.
MC_HARNESS(typed_write_fails)
{
	fill();
	short_sink out(true); out.sticky = false; // the destination itself recovers: the chain must not resume
	mc::set_deviation_bound(1);
	bool failed = false; bytes good;
	for (size_t i = 0; i < 3; i++) {
		const Item& it = menu[mc::choose(menu.size())];
		if (i == 0) mc::job();
		size_t before = out.data.size();
		it.put(out);
		if (failed) MC_CHECK(out.data.size() == before && !out.ok(), "resumed", "%s was written after a failed write", it.name.c_str());
		else if (out.failed) { failed = true; MC_CHECK(!out.ok(), "unreported", "a failed write of %s left state ok", it.name.c_str()); good.insert(good.end(), it.enc.begin(), it.enc.end()); MC_CHECK(out.data.size() <= good.size() && std::equal(out.data.begin(), out.data.end(), good.begin()), "garbage", "destination is not a prefix"); }
		else good.insert(good.end(), it.enc.begin(), it.enc.end());
		mc::transition();
	}
	if (!failed) MC_CHECK(out.data == good && out.ok(), "format", "content differs");
	mc::state(mc::hash(out.data.data(), out.data.size())); mc::outcome(mc::hash(out.data.data(), out.data.size(), failed)); if (failed) mc::nontrivial();
}

// Large strings and collections: every size around the powers of 2 and the internal block, whole and cut short.
MC_HARNESS(typed_large)
{
	static const size_t sizes[] = { 256, 1024, 0x10000, 0x20000, 128, 2048, 0x8000, 0x100000 };
	size_t kind = mc::choose(8), base = sizes[mc::choose(mc::thorough() ? 8 : kind < 5 ? 4 : 3)], off = mc::choose(mc::thorough() ? 5 : 3), cut = mc::choose(4); bool mem = mc::flip(), mixed = mc::flip();
	mc::job();
	size_t n = base - 1 + off; menu.clear();
	auto text = [&](auto c) { std::basic_string<decltype(c)> s(n, c); for (size_t i = 0; i < n; i++) s[i] = (decltype(c))(1 + i * 7 + i / 251); for (auto& x : s) if (!x) x = 1; return s; };
	switch (kind) {
	case 0: str<char>("string", text('a')); break;
	case 1: str<char16_t>("string of u16", text(u'a')); break;
	case 2: str<wchar_t>("wide string", text(L'a')); break;
	case 3: cstr<char>("C string", text('a')); break;
	case 4: { std::vector<uint16_t> v; for (size_t i = 0; i < n; i++) v.push_back((uint16_t)(i * 3)); coll("vector of u16", v); break; }
	case 5: { std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(std::string(i % 3, (char)('a' + i % 26))); coll("vector of strings", v); break; }
	case 6: { std::set<int32_t> v; for (size_t i = 0; i < n; i++) v.insert((int32_t)(i * 3 - n)); coll("set", v); break; }
	case 7: { std::multiset<uint8_t> v; for (size_t i = 0; i < n; i++) v.insert((uint8_t)(i * 5)); coll("multiset", v); break; }
	}
	Item it = menu.back(); menu.clear();
	bytes enc = it.enc; le(enc, "tail", 4);
	// Whole.
	if (cut) ;
	else if (mem) {
		memory_file m; if (mixed) { it.put(m); } else it.mput(m); m.write("tail", 4);
		MC_CHECK(m.ok() && m.size() == enc.size() && !memcmp(m.data(), enc.data(), enc.size()), "format.large", "%s of %zu takes %zu bytes of %zu, or others", it.name.c_str(), n, (size_t)m.size(), enc.size());
		m.seekbeg(0); bool same = mixed ? it.get(m) : it.mget(m); MC_CHECK(same && m.ok() && m.tell() == it.enc.size(), "read.large", "%s of %zu read back from a memory file differs", it.name.c_str(), n);
	} else {
		ref_file m; it.put(m); m.write("tail", 4);
		MC_CHECK(m.ok() && m.data == enc, "format.large", "%s of %zu takes %zu bytes of %zu, or others", it.name.c_str(), n, m.data.size(), enc.size());
		m.pos = 0; MC_CHECK(it.get(m) && m.ok() && m.pos == it.enc.size(), "read.large", "%s of %zu read back differs", it.name.c_str(), n);
		if (mixed) { short_source s(enc, false); MC_CHECK(it.get(s) && s.ok(), "read.large", "%s of %zu read back differs", it.name.c_str(), n); }
	}
	// Cut.
	size_t len = it.enc.size(), to = cut == 0 ? len - 1 : cut == 1 ? len / 2 : cut == 2 ? 4 : std::min<size_t>(len - 1, 4 + 1024);
	bytes part = sub(enc, 0, to);
	if (mem) { memory_file m; m.write(part.data(), part.size()); m.seekbeg(0); if (mixed) it.get(m); else it.mget(m); MC_CHECK(m.state() == state_t::eof, "unreported.large", "%s of %zu cut to %zu bytes was read with state %s", it.name.c_str(), n, to, st_name(m.state())); }
	else { ref_file m(part); it.get(m); MC_CHECK(m.state() == state_t::eof, "unreported.large", "%s of %zu cut to %zu bytes was read with state %s", it.name.c_str(), n, to, st_name(m.state())); }
	mc::transition(n); mc::state(mc::hmix(n, kind)); mc::outcome(mc::hmix(mc::hmix(n, kind), cut)); mc::nontrivial();
}

// Strings of 2^32 characters. All of their pages are the same few, so that they take no memory.
static char* alias_map(size_t bytes)
{
	constexpr size_t block = 16 << 20; size_t n = (bytes + block - 1) / block;
	static int fd = -1; if (fd < 0) { fd = memfd_create("alias", 0); if (fd < 0 || ftruncate(fd, block)) abort(); }
	char* p = (char*)mmap(nullptr, n * block, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort();
	for (size_t i = 0; i < n; i++) if (mmap(p + i * block, block, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
	return p;
}
static void alias_unmap(void* p, size_t bytes) { constexpr size_t block = 16 << 20; munmap(p, (bytes + block - 1) / block * block); }
template <class T> struct alias_alloc {
	typedef T value_type; alias_alloc() {} template <class U> alias_alloc(const alias_alloc<U>&) {}
	T* allocate(size_t n) { return n * sizeof(T) < 1 << 20 ? (T*)malloc(n * sizeof(T)) : (T*)alias_map(n * sizeof(T)); }
	void deallocate(T* p, size_t n) { if (n * sizeof(T) < 1 << 20) free(p); else alias_unmap(p, n * sizeof(T)); }
	template <class U> bool operator==(const alias_alloc<U>&) const { return true; } template <class U> bool operator!=(const alias_alloc<U>&) const { return false; }
};
typedef std::basic_string<char, std::char_traits<char>, alias_alloc<char>> alias_string;
// Counts what it is given; has a prefix and then as much as one likes.
struct abyss : public basic {
	uint64_t in = 0, out = 0; uint8_t head[4] = {}; 
	size_t write(const void* p, size_t n) override { for (size_t i = 0; i < n && in + i < 4; i++) head[in + i] = ((const uint8_t*)p)[i]; in += n; m_state = state_t::ok; return n; }
	size_t read(void* p, size_t n) override { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = out < 4 ? head[out] : 'e', out++; m_state = state_t::ok; return n; }
};
MC_HARNESS(typed_limit)
{
	size_t kind = mc::choose(4), off = mc::thorough() ? mc::choose(4) : 1 + mc::choose(2);
	mc::job();
	size_t n = (size_t)UINT32_MAX - 1 + off; bool fits = n <= UINT32_MAX, thrown = false;
	abyss s; memory_file m; m.write("before", 6);
	try {
		if (kind == 0) { alias_string t(n, 'h'); s << t; }
		else if (kind == 1) { char* p = alias_map(n + 1); memset(p, 'h', 16 << 20); munmap(p + n / (16 << 20) * (16 << 20), 16 << 20); if (mmap(p + n / (16 << 20) * (16 << 20), 16 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) abort(); memset(p + n / (16 << 20) * (16 << 20), 'h', n % (16 << 20)); s.write_str(p); }
		else if (kind == 2) { if (!fits) { alias_string t(n, 'h'); m << t; } }
		else if (!fits) { std::vector<char, alias_alloc<char>> t(n); s << t; } // a vector of as many as fit takes too long
	}
	catch (const std::invalid_argument&) { thrown = true; }
	if (kind < 2 || !fits) MC_CHECK(thrown == !fits, "limit.refused", "%zx characters are %s", n, thrown ? "refused" : "written");
	if (thrown) MC_CHECK(!s.in && s.ok() && m.size() == 6 && m.ok() && !memcmp(m.data(), "before", 6), "limit.partial", "what does not fit is written in part");
	else if (kind < 2) MC_CHECK(s.ok() && s.in == (uint64_t)n + 4 && s.head[0] == (uint8_t)n && s.head[1] == 0xff && s.head[2] == 0xff && s.head[3] == 0xff, "limit.short", "%zx characters take %llx bytes", n, (unsigned long long)s.in);
	if (kind == 0 && fits && mc::thorough()) { alias_string t; s >> t; MC_CHECK(s.ok() && t.size() == n && s.out == (uint64_t)n + 4 && t.back() == 'e', "limit.read", "%zx characters read back are %zx", n, t.size()); }
	mc::transition(); mc::state(mc::hmix(kind, off)); mc::outcome(mc::hmix(kind * 2 + thrown, off)); mc::nontrivial();
}
