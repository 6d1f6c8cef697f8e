// WAV files: chunks round-trip, cues are read and removed exactly, damaged files do no harm.
#include "common.h"
#include <stdex/wav.hpp>
using namespace stdex::stream;
namespace wav = stdex::wav;

// --- independent RIFF tree --------------------------------------------------------------------------------------------
struct chunk { std::string id; bytes data; std::string sub; std::vector<chunk> kids; };
static void le32(bytes& o, uint32_t v) { for (int i = 0; i < 4; i++) o.push_back((uint8_t)(v >> 8 * i)); }
static void tag(bytes& o, const std::string& s) { o.insert(o.end(), s.begin(), s.end()); }
static bytes enc(const chunk& c)
{
	bytes o, d = c.data; if (!c.sub.empty()) { d.clear(); tag(d, c.sub); for (auto& k : c.kids) { bytes e = enc(k); d.insert(d.end(), e.begin(), e.end()); } }
	tag(o, c.id); le32(o, (uint32_t)d.size()); o.insert(o.end(), d.begin(), d.end()); if (d.size() % 2) o.push_back(0);
	return o;
}
static bytes enc(const std::vector<chunk>& v) { bytes o; for (auto& c : v) { bytes e = enc(c); o.insert(o.end(), e.begin(), e.end()); } return o; }
static bool removable(const std::string& id) { return id == "cue " || id == "ltxt" || id == "labl" || id == "note"; }
static std::vector<chunk> without_cues(const std::vector<chunk>& v)
{
	std::vector<chunk> o;
	for (auto& c : v) {
		if (removable(c.id)) continue;
		chunk k = c; if (!c.sub.empty()) { k.kids = without_cues(c.kids); if (k.kids.empty()) continue; }
		o.push_back(k);
	}
	return o;
}
static bytes cue_bytes(uint32_t id, uint32_t pos) { bytes b; le32(b, id); le32(b, pos); tag(b, "data"); le32(b, 0); le32(b, 0); le32(b, pos * 2); return b; }
static bytes cues_bytes(std::vector<std::pair<uint32_t, uint32_t>> v) { bytes b; le32(b, (uint32_t)v.size()); for (auto& c : v) { bytes e = cue_bytes(c.first, c.second); b.insert(b.end(), e.begin(), e.end()); } return b; }
static bytes text_bytes(uint32_t id, const std::string& t) { bytes b; le32(b, id); tag(b, t); if (!t.empty()) b.push_back(0); return b; }
static bytes ltxt_bytes(uint32_t id, uint32_t dur, const std::string& t) { bytes b; le32(b, id); le32(b, dur); tag(b, "scrp"); for (int i = 1; i < 5; i++) { b.push_back((uint8_t)i); b.push_back(0); } tag(b, t); if (!t.empty()) b.push_back(0); return b; }
static uint32_t id4(const char* s) { uint32_t v; memcpy(&v, s, 4); return v; }

// --- single chunks ----------------------------------------------------------------------------------------------------
static bool same(const memory_file& a, const memory_file& b) { return a.size() == b.size() && (!a.size() || !memcmp(a.data(), b.data(), (size_t)a.size())); }
static bool eq(const wav::format& a, const wav::format& b) { return a.compression == b.compression && a.num_channels == b.num_channels && a.sample_rate == b.sample_rate && a.bytes_per_second == b.bytes_per_second && a.block_align == b.block_align && a.bits_per_channel == b.bits_per_channel && same(a.extra, b.extra); }
static bool eq(const wav::data& a, const wav::data& b) { return same(a.content, b.content); }
static bool eq(const wav::silence& a, const wav::silence& b) { return a.num_samples == b.num_samples; }
static bool eq(const wav::ltxt& a, const wav::ltxt& b) { return a.id == b.id && a.duration == b.duration && a.purpose_id == b.purpose_id && a.country == b.country && a.language == b.language && a.dialect == b.dialect && a.charset == b.charset && a.description == b.description; }
static bool eq(const wav::label& a, const wav::label& b) { return a.id == b.id && a.title == b.title; }
static bool eq(const wav::note& a, const wav::note& b) { return a.id == b.id && a.note == b.note; }
static bool eq(const wav::cue& a, const wav::cue& b) { return a.id == b.id && a.position == b.position && a.chunk_id == b.chunk_id && a.chunk_offset == b.chunk_offset && a.block_start == b.block_start && a.block_offset == b.block_offset; }
static bool eq(const wav::cue_vector& a, const wav::cue_vector& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
static void fill(memory_file& f, size_t n) { bytes b = pattern(n, '!'); f.seekbeg(0); f.write(b.data(), n); f.truncate(); }
static void make(wav::format& v, size_t k, bytes& ref) { v.compression = wav::format::compression_t::microsoft_adpcm; v.num_channels = 0x102; v.sample_rate = 0xAC44; v.bytes_per_second = 0x10B10; v.block_align = 4; v.bits_per_channel = 16; fill(v.extra, k); uint8_t h[] = { 2, 0, 2, 1, 0x44, 0xAC, 0, 0, 0x10, 0x0B, 1, 0, 4, 0, 16, 0 }; ref.assign(h, h + 16); if (k) { ref.push_back((uint8_t)k); ref.push_back(0); bytes b = pattern(k, '!'); ref.insert(ref.end(), b.begin(), b.end()); } }
static void make(wav::data& v, size_t k, bytes& ref) { fill(v.content, k); ref = pattern(k, '!'); }
static void make(wav::silence& v, size_t k, bytes& ref) { v.num_samples = 0x80000001u + (uint32_t)k; ref.clear(); le32(ref, v.num_samples); }
static void make(wav::ltxt& v, size_t k, bytes& ref) { v.id = 7; v.duration = 9; v.purpose_id = id4("scrp"); v.country = 1; v.language = 2; v.dialect = 3; v.charset = 4; bytes b = pattern(k); v.description.assign(b.begin(), b.end()); ref = ltxt_bytes(7, 9, v.description); }
static void make(wav::label& v, size_t k, bytes& ref) { v.id = 0x01020304; bytes b = pattern(k); v.title.assign(b.begin(), b.end()); ref = text_bytes(v.id, v.title); }
static void make(wav::note& v, size_t k, bytes& ref) { v.id = 0xF0000000; bytes b = pattern(k); v.note.assign(b.begin(), b.end()); ref = text_bytes(v.id, v.note); }
static void make(wav::cue_vector& v, size_t k, bytes& ref) { v.resize(k); std::vector<std::pair<uint32_t, uint32_t>> w; for (size_t i = 0; i < k; i++) { wav::cue c; c.id = (uint32_t)(9 - i); c.position = (uint32_t)(i * 77); c.chunk_id = id4("data"); c.block_offset = c.position * 2; v[i] = c; w.push_back({ c.id, c.position }); } ref = cues_bytes(w); }
template <class T, class R> static void chunks(const char* id)
{
	size_t k = mc::choose(8), was = mc::choose(4), junk = mc::choose(2);
	mc::job();
	T v, old; bytes ref, dummy; make(v, k, ref);
	bytes e = enc(chunk{ id, ref });
	bytes all = junk ? enc(chunk{ "JUNK", pattern(3) }) : bytes(); size_t at = all.size(); all.insert(all.end(), e.begin(), e.end()); size_t end = all.size(); bytes t = enc(chunk{ "tail", pattern(2) }); all.insert(all.end(), t.begin(), t.end());
	ref_file f; if (junk) { bytes j = enc(chunk{ "JUNK", pattern(3) }); f.write(j.data(), j.size()); }
	f << R(v);
	MC_CHECK(f.ok() && f.data == sub(all, 0, end), "wav.chunk.layout", "%s chunk is written as %s, expected %s", id, show(sub(f.data, at, SIZE_MAX)).c_str(), show(e).c_str());
	for (size_t cut = 0; cut <= all.size(); cut++) {
		T r; make(r, was, dummy); // what was in the object before must not matter
		ref_file g(sub(all, 0, cut));
		bool ok = wav::read_first(g, r, all.size());
		if (cut >= end) MC_CHECK(ok && eq(r, v) && g.pos == end, "wav.chunk.read", "%s chunk of %zu bytes is read %s, position %llu of %zu, value %s", id, ref.size(), ok ? "well" : "with an error", (unsigned long long)g.pos, end, eq(r, v) ? "equal" : "different");
		else if (cut < at + 8 + ref.size()) MC_CHECK(!ok, "wav.chunk.truncated", "%s chunk of %zu bytes cut after %d bytes is read without an error", id, ref.size(), (int)cut - (int)at - 8);
	}
	// Not found past the limit.
	ref_file g(all); T r; MC_CHECK(!wav::read_first(g, r, at) || !at, "wav.chunk.limit", "%s chunk past the limit is read", id);
	mc::transition(all.size()); mc::state(mc::hmix(mc::hmix(k, was), junk)); mc::outcome(mc::hash(all.data(), all.size())); mc::nontrivial();
}
MC_HARNESS(wav_format) { chunks<wav::format, wav::format::record>("fmt "); }
MC_HARNESS(wav_data) { chunks<wav::data, wav::data::record>("data"); }
MC_HARNESS(wav_silence) { chunks<wav::silence, wav::silence::record>("slnt"); }
MC_HARNESS(wav_ltxt) { chunks<wav::ltxt, wav::ltxt::record>("ltxt"); }
MC_HARNESS(wav_label) { chunks<wav::label, wav::label::record>("labl"); }
MC_HARNESS(wav_note) { chunks<wav::note, wav::note::record>("note"); }
namespace stdex { namespace wav { struct cues_t : public cue_vector { using record = cue_vector_record; }; } }
MC_HARNESS(wav_cues)
{
	size_t k = mc::choose(5), was = mc::choose(3);
	mc::job();
	wav::cue_vector v; bytes ref, dummy; make(v, k, ref);
	ref_file f; f << wav::cue_vector_record(v); bytes e = enc(chunk{ "cue ", ref });
	MC_CHECK(f.ok() && f.data == e, "wav.chunk.layout", "cues are written as %s, expected %s", show(f.data).c_str(), show(e).c_str());
	for (size_t cut = 4; cut <= e.size(); cut++) {
		wav::cue_vector r; make(r, was, dummy); ref_file g(sub(e, 0, cut)); g.pos = 4;
		g >> wav::cue_vector_record(r);
		if (cut == e.size()) MC_CHECK(g.ok() && eq(r, v), "wav.chunk.read", "%zu cues are read %s", k, g.ok() ? "well" : "with an error");
		else MC_CHECK(!g.ok(), "wav.chunk.truncated", "%zu cues cut after %zu bytes are read without an error", k, cut);
	}
	mc::transition(e.size()); mc::state(mc::hmix(k, was)); mc::outcome(k); mc::nontrivial();
}

// --- cues with their labels -------------------------------------------------------------------------------------------
static bool eq(const wav::cue_ex& a, const wav::cue_ex& b) { return eq((const wav::cue&)a, (const wav::cue&)b) && a.duration == b.duration && a.purpose_id == b.purpose_id && a.country == b.country && a.language == b.language && a.dialect == b.dialect && a.charset == b.charset && a.description == b.description && a.title == b.title && a.note == b.note; }
static bool eq(const wav::cue_ex_vector& a, const wav::cue_ex_vector& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }
MC_HARNESS(cues_round_trip)
{
	static const char* texts[] = { "", "a", "xy" };
	size_t n = mc::choose(mc::thorough() ? 5 : 4), before = mc::choose(3), after = mc::choose(2), limit = mc::choose(4);
	wav::cue_ex_vector v; std::vector<uint32_t> ids = { 1, 2, 0x80000000, 7, 9 };
	for (size_t i = 0; i < n; i++) {
		wav::cue_ex c; size_t k = mc::choose(n - i); c.id = ids[k]; ids.erase(ids.begin() + k); // every order
		c.position = (uint32_t)(100 - i * 3); c.chunk_id = id4("data"); c.block_start = 3; c.block_offset = (uint32_t)i;
		size_t t = mc::choose(3); c.title = texts[t]; c.note = mc::flip() ? "nnn" : ""; if (i < 2) { c.description = texts[t ? mc::choose(3) : 0]; c.duration = t ? 0xFFFFFFFF : 0; }
		c.purpose_id = id4("capt"); c.country = (uint16_t)i; c.language = 9; c.dialect = 2; c.charset = 1;
		v.push_back(c);
		if (!i) mc::job();
	}
	if (!n) mc::job();
	static const chunk pre[] = { { "fmt ", pattern(16) }, { "LIST", {}, "INFO", { { "INAM", pattern(3) } } } };
	ref_file f; bytes b; for (size_t i = 0; i < before; i++) { bytes e = enc(pre[i]); b.insert(b.end(), e.begin(), e.end()); } f.write(b.data(), b.size());
	size_t start = f.data.size();
	f << v;
	MC_CHECK(f.ok(), "wav.cues.write", "writing cues fails");
	size_t end = f.data.size(); if (after) { bytes e = enc(chunk{ "data", pattern(5) }); f.write(e.data(), e.size()); }
	wav::cue_ex_vector r, s = v; std::sort(s.begin(), s.end(), [](const wav::cue& a, const wav::cue& b) { return a.id < b.id; });
	if (n > 1) r.resize(1);
	f.seekbeg(limit & 1 ? start : 0); uint64_t at = f.tell();
	bool ok = limit < 2 ? wav::read_cues(f, r, end) : limit == 2 ? wav::read_cues(f, r, f.data.size()) : wav::read_cues(f, r);
	MC_CHECK(ok && eq(r, s), "wav.cues.read", "%zu cues read back as %zu, %s", n, r.size(), eq(r, s) ? "equal" : "different");
	MC_CHECK(f.tell() == at, "wav.cues.pos", "reading cues moves the position from %llu to %llu", (unsigned long long)at, (unsigned long long)f.tell());
	mc::transition(2); mc::state(mc::hash(f.data.data(), f.data.size())); mc::outcome(mc::hash(f.data.data(), f.data.size())); if (n > 1) mc::nontrivial();
}

// --- whole files ------------------------------------------------------------------------------------------------------
static const std::vector<chunk>& alphabet()
{
	static const std::vector<chunk> a = {
		{ "data", pattern(4) }, { "data", pattern(3) }, { "fmt ", pattern(16) },
		{ "cue ", cues_bytes({ { 2, 5 }, { 1, 9 } }) }, { "LIST", {}, "adtl", { { "labl", text_bytes(1, "ab") }, { "note", text_bytes(2, "c") }, { "ltxt", ltxt_bytes(2, 6, "d") } } },
		{ "LIST", {}, "INFO", { { "INAM", text_bytes(1, "x") }, { "ICRD", pattern(4) } } }, { "LIST", {}, "adtl", { { "labl", text_bytes(9, "zz") }, { "file", pattern(3) } } },
		{ "labl", text_bytes(1, "stray") }, { "LIST", {}, "adtl", {} }, { "ISFT", bytes{ 'L' } },
	};
	return a;
}
struct xcue { uint32_t pos; uint32_t dur = 0; std::string d, t, n; };
static std::vector<chunk> pick_file(size_t max, std::vector<chunk>& body)
{
	size_t n = mc::choose(max + 1);
	for (size_t i = 0; i < n; i++) { body.push_back(mc::pick(alphabet())); if (i < 2) mc::state(i); }
	std::vector<chunk> file; size_t form = mc::choose(4);
	if (form & 1) file.push_back({ "RIFF", {}, "AVI ", { { "cue ", cues_bytes({ { 77, 1 } }) } } });
	file.push_back({ "RIFF", {}, "WAVE", body });
	if (form & 2) file.push_back({ "data", pattern(2) });
	return file;
}
MC_HARNESS(whole_files)
{
	std::vector<chunk> body, file = pick_file(mc::thorough() ? 4 : 3, body);
	mc::job();
	// The file may be embedded in another one, at any offset.
	size_t pre = mc::choose(2); bytes all = pattern(pre); { bytes e = enc(file); all.insert(all.end(), e.begin(), e.end()); }
	ref_file f(all); f.pos = pre; uint64_t start = pre; for (auto& c : file) { if (c.sub == "WAVE") break; start += enc(c).size(); }
	uint64_t end = 0;
	MC_CHECK(wav::find_content(f, mc::flip() ? f.data.size() : fpos_max, &end), "wav.find_content", "content is not found");
	uint64_t b = start + 12, e = b + enc(body).size();
	MC_CHECK(f.tell() == b && end == e, "wav.find_content", "content is found at %llu..%llu, expected %llu..%llu", (unsigned long long)f.tell(), (unsigned long long)end, (unsigned long long)b, (unsigned long long)e);
	// The first chunk of a kind.
	bool has_fmt = false; for (auto& c : body) has_fmt |= c.id == "fmt ";
	wav::format fm; MC_CHECK(wav::read_first(f, fm, end) == has_fmt, "wav.read_first", "format is %sread", has_fmt ? "not " : "");
	f.seekbeg(b);
	size_t info = 0, off = b; for (auto& c : body) { if (c.sub == "INFO") { info = off; break; } off += enc(c).size(); }
	uint64_t le = 0; bool found = wav::find_first<wav::list>(f, id4("INFO"), end, &le);
	MC_CHECK(found == !!info, "wav.find_first", "list is %sfound", found ? "" : "not ");
	if (found) { chunk c = alphabet()[5]; MC_CHECK(f.tell() == info + 12 && le == info + enc(c).size(), "wav.find_first", "list is found at %llu..%llu, expected %zu..%zu", (unsigned long long)f.tell(), (unsigned long long)le, info + 12, info + enc(c).size()); }
	// Cues.
	std::vector<wav::cue_ex> x; 
	for (auto& c : body) if (c.id == "cue ") { x.resize(2); x[0].id = 1; x[0].position = 9; x[1].id = 2; x[1].position = 5; for (auto& y : x) { y.chunk_id = id4("data"); y.block_offset = y.position * 2; } }
	if (!x.empty()) for (auto& c : body) if (c.sub == "adtl" && c.kids.size() == 3) { x[0].title = "ab"; x[1].note = "c"; x[1].description = "d"; x[1].duration = 6; x[1].purpose_id = id4("scrp"); x[1].country = 1; x[1].language = 2; x[1].dialect = 3; x[1].charset = 4; }
	wav::cue_ex_vector r; f.seekbeg(b);
	bool ok = wav::read_cues(f, r, end);
	MC_CHECK(ok && eq(r, x) && f.tell() == b, "wav.read_cues", "%s, %zu cues of %zu, %s, position %llu", ok ? "succeeds" : "fails", r.size(), x.size(), eq(r, x) ? "equal" : "different", (unsigned long long)f.tell());
	// Removing them.
	ref_file o(pattern(mc::choose(2) * 500)); f.seekbeg(pre); bytes in = f.data, want = enc(without_cues(file));
	ok = mc::flip() ? wav::remove_cues(f, o) : wav::remove_cues(f, o, f.data.size());
	MC_CHECK(f.data == in, "wav.remove_cues.input", "removing cues changes the input");
	MC_CHECK(ok && o.data == want, "wav.remove_cues", "removing cues from %s %s and gives %s, expected %s", show(in).c_str(), ok ? "succeeds" : "fails", show(o.data).c_str(), show(want).c_str());
	mc::transition(6); mc::state(mc::hash(in.data(), in.size())); mc::outcome(mc::hash(want.data(), want.size())); if (body.size() > 1) mc::nontrivial();
}

// --- damaged files and failing outputs --------------------------------------------------------------------------------
static void all_readers(const bytes& d, uint64_t limit)
{
	ref_file f(d); uint64_t end; wav::cue_ex_vector r; wav::format fm; wav::data da; ref_file o;
	auto guarded = [&](const char* what, const std::function<void()>& op) {
		try { op(); }
		catch (const std::exception& x) { mc::fail("wav.damaged.throw", "%s of %s throws: %s", what, show(d).c_str(), x.what()); }
	};
	guarded("find_content", [&] { if (wav::find_content(f, limit, &end)) { uint64_t b = f.tell(); guarded("read_first", [&] { wav::read_first(f, fm, end); f.seekbeg(b); wav::read_first(f, da, end); }); f.seekbeg(b); guarded("read_cues", [&] { wav::read_cues(f, r, end); }); } });
	f.seekbeg(0); guarded("read_cues", [&] { wav::read_cues(f, r, limit); });
	f.seekbeg(0); guarded("remove_cues", [&] { wav::remove_cues(f, o, limit); });
	MC_CHECK(o.data.size() <= d.size() + 64, "wav.damaged.remove", "removing cues from %zu bytes gives %zu", d.size(), o.data.size());
	mc::transition(5);
}
static const std::vector<std::vector<chunk>>& samples()
{
	static const std::vector<std::vector<chunk>> s = {
		{ { "RIFF", {}, "WAVE", { { "fmt ", pattern(18) }, alphabet()[3], alphabet()[4], alphabet()[1] } } },
		{ alphabet()[3], alphabet()[4] },
		{ { "RIFF", {}, "WAVE", { alphabet()[5], alphabet()[0] } }, alphabet()[9] },
	};
	return s;
}
MC_HARNESS(damaged_files)
{
	bytes d = enc(mc::pick(samples())); size_t at = mc::choose(d.size()), how = mc::choose(8); bool more = mc::thorough();
	mc::job();
	auto damage = [](bytes& d, size_t at, size_t how) {
		static const uint8_t v[] = { 0, 1, 4, 0x7F, 0x80, 0xFF };
		if (how < 6) d[at] = v[how]; else if (how == 6) for (size_t i = at; i < at + 4 && i < d.size(); i++) d[i] = 0xFF; else d.resize(at);
	};
	uint64_t limit = mc::flip() ? fpos_max : d.size();
	damage(d, at, how); all_readers(d, limit);
	if (more && how < 7) for (size_t b = at + 1; b < d.size(); b++) for (size_t h = 0; h < 8; h++) { bytes e = d; damage(e, b, h); all_readers(e, limit); }
	mc::state(mc::hash(d.data(), d.size())); mc::outcome(mc::hmix(at, how)); mc::nontrivial();
}
MC_HARNESS(remove_cues_faults)
{
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	const auto& s = mc::pick(samples()); bool sticky = mc::flip(), in = mc::flip();
	mc::job();
	ref_file f(enc(s)), o; bool fired = false; bytes want = enc(without_cues(s));
	(in ? f : o).fault = [&](char op, uint64_t pos, size_t len) -> size_t {
		if (fired && sticky) return 1;
		size_t c = mc::choose_dev(2); if (c) { fired = true; MC_LOG("%c at %llu, %zu bytes fails", op, (unsigned long long)pos, len); } return c;
	};
	bool ok = wav::remove_cues(f, o, f.data.size());
	MC_LOG("%s, state %s", ok ? "true" : "false", st_name(o.state()));
	if (ok) MC_CHECK(o.data == want, "wav.remove_cues.fault", "reports success and gives %s, expected %s", show(o.data).c_str(), show(want).c_str());
	else MC_CHECK(fired, "wav.remove_cues.fault.false", "fails where nothing failed");
	mc::transition(1); mc::state(mc::hash(o.data.data(), o.data.size())); mc::outcome(mc::hash(o.data.data(), o.data.size(), ok)); if (fired) mc::nontrivial();
}
// Reading that fails at any point: cues are all there, or it says so.
MC_HARNESS(read_faults)
{
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	size_t k = mc::choose(samples().size() - 1), part = mc::choose(3); bool sticky = mc::flip(), shorts = mc::flip();
	mc::job();
	ref_file f(enc(samples()[k])); bool fired = false, failed = false;
	wav::cue_ex_vector want, r; uint64_t end, want_end = 0, want_at = 0; wav::format wf, rf; bool wok = false;
	auto go = [&](wav::cue_ex_vector& c, wav::format& fm) -> bool {
		if (part == 0) return wav::read_cues(f, c, f.data.size() - (k ? 0 : 0));
		if (!wav::find_content(f, f.data.size(), &end)) return false;
		if (part == 1) return wav::read_cues(f, c, end);
		return wav::read_first(f, fm, end);
	};
	if (part == 0 && k == 0) f.pos = 12;
	uint64_t start = f.pos;
	wok = go(want, wf); want_end = end; want_at = f.pos;
	f.pos = start; f.seekbeg(start);
	f.fault = [&](char op, uint64_t pos, size_t len) -> size_t {
		if (fired && sticky) { failed = true; return 1; }
		if (fired) return 0;
		size_t c = mc::choose_dev(shorts && op == 'r' ? 3 : 2); if (c) { if (c == 1) fired = failed = true; MC_LOG("%c at %llu, %zu bytes %s", op, (unsigned long long)pos, len, c == 1 ? "fails" : "is short"); } return c;
	};
	bool ok = go(r, rf);
	MC_LOG("%s, %zu cues", ok ? "true" : "false", r.size());
	if (ok) {
		MC_CHECK(wok, "wav.read.fault", "succeeds where nothing is there");
		if (part < 2) MC_CHECK(eq(r, want), "wav.read.fault", "reports success and gives %zu cues of %zu, %s", r.size(), want.size(), eq(r, want) ? "equal" : "different");
		else MC_CHECK(eq(rf, wf), "wav.read.fault", "reports success and gives another format");
		if (part) MC_CHECK(end == want_end, "wav.read.fault", "content ends at %llu instead of %llu", (unsigned long long)end, (unsigned long long)want_end);
	}
	else MC_CHECK(failed || !wok, "wav.read.fault.false", "fails where nothing failed");
	mc::transition(1); mc::state(mc::hmix(mc::hmix(k, part), r.size())); mc::outcome(mc::hmix(ok, r.size())); if (fired) mc::nontrivial();
}
// Writing that fails at any point: the chunks are all there, or the file says it failed.
MC_HARNESS(write_faults)
{
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	size_t n = mc::choose(3), what = mc::choose(7); bool sticky = mc::flip();
	mc::job();
	ref_file ref, f; bool fired = false;
	wav::cue_ex_vector v;
	for (size_t i = 0; i < n; i++) { wav::cue_ex c; c.id = (uint32_t)i + 1; c.position = 7; c.title = i ? "" : "t"; c.note = "nn"; c.description = i ? "d" : ""; v.push_back(c); }
	auto go = [&](ref_file& o) {
		bytes dummy;
		switch (what) {
		case 0: o << v; break;
		case 1: { wav::format x; make(x, n, dummy); o << wav::format::record(x); break; }
		case 2: { wav::data x; make(x, n, dummy); o << wav::data::record(x); break; }
		case 3: { wav::ltxt x; make(x, n, dummy); o << wav::ltxt::record(x); break; }
		case 4: { wav::label x; make(x, n, dummy); o << wav::label::record(x); break; }
		case 5: { wav::cue_vector x; make(x, n, dummy); o << wav::cue_vector_record(x); break; }
		case 6: { wav::note x; make(x, n, dummy); o << wav::note::record(x); break; }
		}
	};
	go(ref); MC_CHECK(ref.ok(), "wav.write.fault.false", "fails where nothing failed");
	f.fault = [&](char op, uint64_t pos, size_t len) -> size_t {
		if (fired) return sticky;
		size_t c = mc::choose_dev(op == 'w' && len > 1 ? 3 : 2); if (c) { fired = true; MC_LOG("%c at %llu, %zu bytes fails%s", op, (unsigned long long)pos, len, c == 2 ? " half way" : ""); } return c;
	};
	go(f);
	MC_LOG("state %s", st_name(f.state()));
	if (f.ok()) MC_CHECK(f.data == ref.data, "wav.write.fault", "reports success and writes %s, expected %s", show(f.data).c_str(), show(ref.data).c_str());
	else MC_CHECK(fired, "wav.write.fault.false", "fails where nothing failed");
	mc::transition(1); mc::state(mc::hmix(mc::hmix(n, what), f.data.size())); mc::outcome(mc::hmix(f.ok(), f.data.size())); if (fired) mc::nontrivial();
}
MC_HARNESS(big_extra)
{
	size_t n = mc::pick({ (size_t)255, (size_t)256, (size_t)65534, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)131072 });
	mc::job();
	wav::format v, r; bytes ref; make(v, 0, ref); fill(v.extra, n); ref_file f; bool refused = false;
	try { f << v; } catch (const std::invalid_argument&) { refused = true; }
	MC_CHECK(refused == n > 65535, "wav.extra", "%zu bytes of extra data are %s", n, refused ? "refused" : "accepted");
	if (!refused) { f.seekbeg(0); f >> r; MC_CHECK(f.ok() && eq(r, v), "wav.extra", "%zu bytes of extra data are read back %s", n, f.ok() ? "different" : "with an error"); }
	mc::transition(1); mc::state(n); mc::outcome(refused); mc::nontrivial();
}

// More cues than a narrow count, in every order that matters.
MC_HARNESS(many_cues)
{
	static const size_t sizes[] = { 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65537, 70001 };
	size_t n = mc::pick(sizes), order = mc::choose(4), form = mc::choose(2);
	mc::job();
	wav::cue_ex_vector v(n), s;
	for (size_t i = 0; i < n; i++) {
		size_t id = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i + n / 2) % n : i + 1 < n ? i + 1 : 0; // ascending, descending, two runs, the last one first
		auto& c = v[i]; c.id = (uint32_t)(id * 3 + 1); c.position = (uint32_t)(i * 5); c.chunk_id = id4("data"); c.block_offset = (uint32_t)id; c.country = (uint16_t)id; c.duration = (uint32_t)i;
		if (id % 61 == 0 || id > n - 4 || (id > 253 && id < 259)) { c.title = mc::str("t%zu", id); c.note = mc::str("n%zu", id * 2); c.description = mc::str("d%zu", id * 3); }
	}
	s = v; std::sort(s.begin(), s.end(), [](const wav::cue& a, const wav::cue& b) { return a.id < b.id; });
	stdex::stream::memory_file f; 
	if (form) {
		f << v; MC_CHECK(f.ok(), "wav.many.write", "writing %zu cues fails", n);
		wav::cue_ex_vector r; f.seekbeg(0);
		bool ok = wav::read_cues(f, r, f.size());
		MC_CHECK(ok && eq(r, s) && f.tell() == 0, "wav.many.read", "%zu cues (order %zu) read back as %zu, %s", n, order, r.size(), eq(r, s) ? "equal" : "different");
		stdex::stream::memory_file o; f.seekbeg(0); MC_CHECK(wav::remove_cues(f, o) && o.size() == 0, "wav.many.remove", "removing %zu cues leaves %llu bytes", n, (unsigned long long)o.size());
	}
	else {
		wav::cue_vector w(v.begin(), v.end()), r; f << wav::cue_vector_record(w);
		MC_CHECK(f.ok() && f.size() == 12 + n * 24, "wav.many.write", "%zu cues take %llu bytes", n, (unsigned long long)f.size());
		f.seekbeg(4); f >> wav::cue_vector_record(r); bool same = r.size() == n; for (size_t i = 0; same && i < n; i++) same = eq(r[i], w[i]);
		MC_CHECK(f.ok() && same && f.tell() == f.size(), "wav.many.read", "%zu cues read back as %zu, %s", n, r.size(), same ? "equal" : "different");
	}
	mc::transition(2); mc::state(n * 8 + order * 2 + form); mc::outcome(n * 8 + order * 2 + form); mc::nontrivial();
}
// Texts and chunks longer than a narrow count, odd and even.
MC_HARNESS(long_chunks)
{
	static const size_t sizes[] = { 127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 65525, 65530, 65534, 65535, 65536, 65537, 70001, 131071, 1000003 };
	size_t n = mc::pick(sizes), what = mc::choose(5);
	mc::job();
	bytes body(n); for (size_t i = 0; i < n; i++) body[i] = (uint8_t)(1 + (i * 7 + (i >> 8) * 3 + (i >> 16)) % 250);
	std::string text(body.begin(), body.end()); ref_file f; bool same = false;
	switch (what) {
	case 0: { wav::cue_ex_vector v(3), r; for (int i = 0; i < 3; i++) v[i].id = 5 + i; v[0].title = text; v[1].note = text; v[2].description = text; v[2].title = "x"; f << v; size_t end = f.data.size(); f.seekbeg(0); same = wav::read_cues(f, r, end) && eq(r, v); break; }
	case 1: { wav::label v, r; v.id = 3; v.title = text; f << wav::label::record(v); f.seekbeg(4); f >> wav::label::record(r); same = f.ok() && r.id == 3 && r.title == text && f.pos == f.data.size(); break; }
	case 2: { wav::data v, r; v.content.write(body.data(), n); f << wav::data::record(v); f.seekbeg(4); f >> wav::data::record(r); same = f.ok() && r.content.size() == n && !memcmp(r.content.data(), body.data(), n) && f.pos == f.data.size(); break; }
	case 3: { wav::note v, r; v.id = 3; v.note = text; f << wav::note::record(v); f.seekbeg(4); f >> wav::note::record(r); same = f.ok() && r.id == 3 && r.note == text && f.pos == f.data.size(); break; }
	case 4: { // found after it, and copied when cues are removed
		std::vector<chunk> file = { { "RIFF", {}, "WAVE", { { "data", body }, alphabet()[3], { "LIST", {}, "adtl", { { "labl", text_bytes(1, text.c_str()) } } }, { "fmt ", pattern(16) }, { "ISFT", body } } } };
		bytes all = enc(file), want = enc(without_cues(file)); f.data = all; uint64_t end = 0; wav::cue_ex_vector r; wav::format fm; wav::data d;
		same = wav::find_content(f, fpos_max, &end) && f.pos == 12 && end == all.size() && wav::read_first(f, fm, end); f.seekbeg(12);
		same = same && wav::read_first(f, d, end) && d.content.size() == n && !memcmp(d.content.data(), body.data(), n); f.seekbeg(12);
		same = same && wav::read_cues(f, r, end) && r.size() == 2 && r[0].title == text; f.seekbeg(0);
		ref_file o; same = same && wav::remove_cues(f, o) && o.data == want; break; }
	}
	MC_CHECK(same, "wav.long", "a chunk of %zu bytes is not what it was (%zu)", n, what);
	mc::transition(2); mc::state(n * 8 + what); mc::outcome(n * 8 + what); mc::nontrivial();
}
