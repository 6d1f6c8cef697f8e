// Tagged records: layout, search, skipping, truncation and write faults against an independent encoder.
#include "common.h"
#include <stdex/idrec.hpp>
#include <limits>
#include <sstream>
using namespace stdex::stream;

// Record payload: writes its bytes; reads as many bytes as `want` says.
struct blob { bytes data; size_t want = 0; };
static basic& operator<<(basic& s, const blob& b) { if (!b.data.empty()) s.write(b.data.data(), b.data.size()); return s; }
static basic& operator>>(basic& s, blob& b)
{
	b.data.assign(b.want, 0x55);
	size_t n = 0;
	while (n < b.want) { size_t k = s.read(b.data.data() + n, b.want - n); n += k; if (!k || !s.ok()) break; }
	b.data.resize(n);
	return s;
}
static std::ostream& operator<<(std::ostream& s, const blob& b) { return s.write((const char*)b.data.data(), b.data.size()); }
static std::istream& operator>>(std::istream& s, blob& b) { b.data.assign(b.want, 0x55); s.read((char*)b.data.data(), b.want); b.data.resize((size_t)s.gcount()); return s; }

template <class I, class S, S AL> struct fmt {
	typedef I id_t; typedef S size_t_; static constexpr size_t hdr = sizeof(I) + sizeof(S), al = AL;
	static constexpr I A = (I)0x4231, B = (I)0x4232;
	template <I ID> using rec = stdex::idrec::record<blob, I, ID, S, AL>;
	static bytes enc(I id, const bytes& d)
	{
		bytes o; for (size_t i = 0; i < sizeof(I); i++) o.push_back((uint8_t)((uint64_t)id >> 8 * i));
		for (size_t i = 0; i < sizeof(S); i++) o.push_back((uint8_t)((uint64_t)d.size() >> 8 * i));
		o.insert(o.end(), d.begin(), d.end()); while ((o.size() - hdr) % AL) o.push_back(0);
		return o;
	}
};
typedef fmt<uint32_t, uint32_t, 4> F444; typedef fmt<uint16_t, uint8_t, 4> F214; typedef fmt<uint16_t, uint16_t, 1> F221; typedef fmt<uint32_t, uint64_t, 8> F488; typedef fmt<uint16_t, uint32_t, 2> F242;
template <class T, class Q> static void put(Q& s, bool a, const blob& b)
{
	if (a) s << typename T::template rec<T::A>(b); else s << typename T::template rec<T::B>(b);
}

// Writes some records every way there is, then looks for and reads them from every record boundary and under every limit.
template <class T> static void layout(const std::vector<size_t>& sizes)
{
	typedef typename T::id_t I; typedef typename T::size_t_ S;
	size_t count = mc::choose(mc::thorough() ? 6 : 5), junk = mc::choose(3);
	struct R { bool a; blob b; size_t at, end; }; std::vector<R> rs;
	bytes all = pattern(junk, '<');
	for (size_t i = 0; i < count; i++) {
		R r; r.a = mc::flip(); size_t n = mc::pick(sizes);
		// Content that looks like records itself.
		bytes bait = T::enc(T::A, { 1 }); for (size_t k = 0; k < n; k++) r.b.data.push_back(bait[k % bait.size()]);
		r.at = all.size(); bytes e = T::enc(r.a ? T::A : T::B, r.b.data); all.insert(all.end(), e.begin(), e.end()); r.end = all.size(); rs.push_back(r);
		if (!i) mc::job();
	}
	if (!count) mc::job();
	ref_file f(pattern(junk, '<')); f.pos = junk; memory_file m(4); { bytes j = pattern(junk, '<'); m.write(j.data(), junk); }
	short_sink sink; { bytes j = pattern(junk, '<'); sink.write(j.data(), junk); }
	std::ostringstream os; os.write("<=>", junk);
	for (auto& r : rs) {
		put<T>((basic_file&)f, r.a, r.b); put<T>((basic_file&)m, r.a, r.b); put<T>((basic&)sink, r.a, r.b); put<T>((std::ostream&)os, r.a, r.b);
		MC_CHECK(f.ok() && f.pos == r.end && m.ok() && m.tell() == r.end && sink.ok() && os.good() && (size_t)os.tellp() == r.end, "idrec.write.end", "after a record that ends at %zu the position is %zu, %zu, %zu, %zu", r.end, (size_t)f.pos, (size_t)m.tell(), sink.data.size(), (size_t)os.tellp());
	}
	MC_CHECK(f.data == all, "idrec.layout", "file holds %s, expected %s", show(f.data).c_str(), show(all).c_str());
	MC_CHECK(sub(bytes((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()), 0, SIZE_MAX) == all, "idrec.layout.memory", "memory file differs");
	MC_CHECK(sink.data == all, "idrec.layout.stream", "stream got %s, expected %s", show(sink.data).c_str(), show(all).c_str());
	std::string o = os.str(); MC_CHECK(bytes(o.begin(), o.end()) == all, "idrec.layout.ostream", "ostream got %s, expected %s", show(o).c_str(), show(all).c_str());
	// Search from every boundary, with every limit, for every ID.
	std::istringstream is(o);
	for (size_t from = 0; from <= rs.size(); from++) {
		size_t start = from < rs.size() ? rs[from].at : all.size();
		for (size_t lim = start; lim <= all.size() + 2; lim++) for (size_t id = 0; id < 3; id++) {
			size_t hit = from; bool found = false; bool limited = lim <= all.size() + 1;
			for (; hit < rs.size() && (!limited || rs[hit].at < lim); hit++) if (id < 2 && rs[hit].a == !id) { found = true; break; }
			I want = id == 0 ? T::A : id == 1 ? T::B : (I)0x4233;
			f.seekbeg(start); is.clear(); is.seekg(start);
			bool a = limited ? stdex::idrec::find<I, S, T::al>((basic_file&)f, want, (uint64_t)lim) : stdex::idrec::find<I, S, T::al>((basic_file&)f, want);
			bool b = limited ? stdex::idrec::find<I, S, T::al>((std::istream&)is, want, (std::streamoff)lim) : stdex::idrec::find<I, S, T::al>((std::istream&)is, want);
			MC_CHECK(a == found && b == found, "idrec.find", "record %llx from %zu up to %zu is %sfound in the file, %sfound in the stream", (unsigned long long)want, start, lim, a ? "" : "not ", b ? "" : "not ");
			if (!found) continue;
			MC_CHECK(f.pos == rs[hit].at + sizeof(I) && (size_t)is.tellg() == f.pos, "idrec.find.pos", "finding leaves the position at %llu and %lld, expected %zu", (unsigned long long)f.pos, (long long)is.tellg(), rs[hit].at + sizeof(I));
			if (limited) continue;
			// Read it: exactly, less, more.
			for (int how = 0; how < 4; how++) {
				const R& r = rs[hit]; size_t n = r.b.data.size(), w = how == 0 ? n : how == 1 ? n / 2 : n + how - 1;
				blob x; x.want = w; ref_file g(f.data); g.pos = f.pos;
				if (!id) g >> typename T::template rec<T::A>(x); else g >> typename T::template rec<T::B>(x);
				MC_CHECK(g.ok() && g.pos == r.end && x.data == sub(r.b.data, 0, w), "idrec.read", "reading %zu of %zu bytes gives %s, ends at %llu of %zu, state %s", w, n, show(x.data).c_str(), (unsigned long long)g.pos, r.end, st_name(g.state()));
				blob y; y.want = w; short_source q(sub(all, f.pos, SIZE_MAX), false);
				if (!id) (basic&)q >> typename T::template rec<T::A>(y); else (basic&)q >> typename T::template rec<T::B>(y);
				MC_CHECK(q.ok() && q.pos + f.pos == r.end && y.data == x.data, "idrec.read.stream", "reading %zu of %zu bytes from a stream gives %s, ends at %llu of %zu, state %s", w, n, show(y.data).c_str(), (unsigned long long)(q.pos + f.pos), r.end, st_name(q.state()));
				if (how < 2) {
					blob z; z.want = w; is.clear(); is.seekg(f.pos);
					if (!id) is >> typename T::template rec<T::A>(z); else is >> typename T::template rec<T::B>(z);
					MC_CHECK(is.good() && (size_t)is.tellg() == r.end && z.data == x.data, "idrec.read.istream", "reading %zu of %zu bytes from an istream gives %s, ends at %lld of %zu", w, n, show(z.data).c_str(), (long long)is.tellg(), r.end);
				}
			}
		}
	}
	mc::transition(count); mc::state(mc::hash(all.data(), all.size())); mc::outcome(mc::hash(all.data(), all.size())); if (count > 1) mc::nontrivial();
}
MC_HARNESS(records_32) { layout<F444>({ 0, 1, 4, 7 }); }
MC_HARNESS(records_8) { layout<F214>({ 0, 3, 252, 255 }); }
MC_HARNESS(records_16) { layout<F221>({ 0, 1, 6 }); }
MC_HARNESS(records_64) { layout<F488>({ 0, 1, 8, 15 }); }
MC_HARNESS(records_mixed) { layout<F242>({ 0, 1, 2, 9 }); }

// Records inside records.
struct tree { blob head; std::vector<tree> kids; };
typedef stdex::idrec::record<tree, uint16_t, 0x5454, uint16_t, 4> tree_rec;
static basic_file& operator<<(basic_file& s, const tree& t) { s << F444::rec<F444::A>(t.head); for (auto& k : t.kids) s << tree_rec(k); return s; }
static bytes enc_tree(const tree& t)
{
	bytes o = F444::enc(F444::A, t.head.data); for (auto& k : t.kids) { bytes e = enc_tree(k); o.insert(o.end(), e.begin(), e.end()); }
	bytes h = { 0x54, 0x54, (uint8_t)o.size(), (uint8_t)(o.size() >> 8) }; while (o.size() % 4) o.push_back(0);
	h.insert(h.end(), o.begin(), o.end()); return h;
}
static tree pick_tree(size_t depth) { tree t; t.head.data = pattern(mc::choose(3) * 3, 'A'); if (depth) for (size_t k = mc::choose(3); k; k--) t.kids.push_back(pick_tree(depth - 1)); return t; }
static size_t walk(basic_file& f, const tree& t, uint64_t end)
{
	// f stands behind the ID of a tree record.
	uint16_t size; f >> size; uint64_t start = f.tell(), lim = start + size; size_t n = 1;
	MC_CHECK(F444::rec<F444::A>::find(f, lim), "idrec.nested", "header of a nested record is not found");
	blob b; b.want = t.head.data.size(); f >> F444::rec<F444::A>(b);
	MC_CHECK(b.data == t.head.data, "idrec.nested", "nested record holds %s", show(b.data).c_str());
	for (auto& k : t.kids) { MC_CHECK(tree_rec::find(f, lim), "idrec.nested", "nested record is not found"); n += walk(f, k, lim); }
	MC_CHECK(!tree_rec::find(f, lim), "idrec.nested", "a record is found past the end of its parent");
	f.seekbeg(lim + (4 - size % 4) % 4);
	MC_CHECK(f.tell() <= end + 3, "idrec.nested", "a nested record exceeds its parent");
	return n;
}
MC_HARNESS(nested_records)
{
	tree t = pick_tree(mc::thorough() ? 2 : 1), u = pick_tree(1);
	mc::job();
	ref_file f; f << tree_rec(t) << tree_rec(u);
	bytes e = enc_tree(t), g = enc_tree(u); e.insert(e.end(), g.begin(), g.end());
	MC_CHECK(f.ok() && f.data == e, "idrec.nested.layout", "file holds %s, expected %s", show(f.data).c_str(), show(e).c_str());
	f.seekbeg(0); size_t n = 0;
	MC_CHECK(tree_rec::find(f), "idrec.nested", "not found"); n += walk(f, t, e.size());
	MC_CHECK(tree_rec::find(f), "idrec.nested", "not found"); n += walk(f, u, e.size());
	MC_CHECK(!tree_rec::find(f), "idrec.nested", "too many");
	mc::transition(n); mc::state(mc::hash(e.data(), e.size())); mc::outcome(mc::hash(e.data(), e.size())); if (n > 2) mc::nontrivial();
}

// A file that ends inside a record: reading what is not there is noticed, searching ends.
template <class T> static void truncated()
{
	typedef typename T::id_t I; typedef typename T::size_t_ S;
	size_t n = mc::choose(10), w = mc::choose(12), first = mc::choose(6);
	mc::job();
	blob b; b.data = pattern(n); bytes lead = T::enc(T::B, pattern(first)), e = T::enc(T::A, b.data), all = lead; all.insert(all.end(), e.begin(), e.end());
	for (size_t cut = 0; cut < all.size(); cut++) {
		ref_file f(sub(all, 0, cut)); blob x; x.want = w;
		std::string o(f.data.begin(), f.data.end()); std::istringstream is(o);
		bool fa = stdex::idrec::find<I, S, T::al>((basic_file&)f, T::A), fb = stdex::idrec::find<I, S, T::al>((std::istream&)is, T::A), there = cut >= lead.size() + sizeof(I);
		MC_CHECK(fa == there && fb == there, "idrec.truncated.find", "record cut at %zu of %zu is %sfound in the file, %sfound in the stream", cut, all.size(), fa ? "" : "not ", fb ? "" : "not ");
		bool odd = stdex::idrec::find<I, S, T::al>((basic_file&)f, (I)0x7777); MC_CHECK(!odd, "idrec.truncated.find", "a record that is not there is found");
		if (!there) continue;
		f.seekbeg(lead.size() + sizeof(I));
		f >> typename T::template rec<T::A>(x);
		size_t avail = cut < lead.size() + T::hdr ? 0 : cut - lead.size() - T::hdr, need = std::min(w, n);
		// What was asked for and is in the record but not in the file must be missed.
		bool lost = cut < lead.size() + T::hdr || need > avail;
		if (lost) MC_CHECK(!f.ok(), "idrec.truncated", "reading %zu of %zu bytes of a record cut after %zu bytes reports no error", w, n, avail);
		else MC_CHECK(x.data == sub(b.data, 0, w), "idrec.truncated.data", "reading %zu bytes of a record cut after %zu of %zu bytes gives %s", w, avail, n, show(x.data).c_str());
		short_source q(sub(all, lead.size() + sizeof(I), cut - lead.size() - sizeof(I)), false); blob y; y.want = w;
		(basic&)q >> typename T::template rec<T::A>(y);
		if (lost) MC_CHECK(!q.ok(), "idrec.truncated.stream", "reading %zu of %zu bytes of a record cut after %zu bytes reports no error", w, n, avail);
		else MC_CHECK(y.data == sub(b.data, 0, w), "idrec.truncated.data", "reading %zu bytes of a record cut after %zu of %zu bytes gives %s", w, avail, n, show(y.data).c_str());
		if (w > n) continue; // an istream is not limited to the record
		blob z; z.want = w; is.clear(); is.seekg(lead.size() + sizeof(I)); is >> typename T::template rec<T::A>(z);
		if (lost) MC_CHECK(!is.good(), "idrec.truncated.istream", "reading %zu of %zu bytes of a record cut after %zu bytes reports no error", w, n, avail);
		mc::transition(3);
	}
	mc::state(mc::hmix(mc::hmix(n, w), first)); mc::outcome(mc::hmix(n, w)); mc::nontrivial();
}
MC_HARNESS(truncated_32) { truncated<F444>(); }
MC_HARNESS(truncated_8) { truncated<F214>(); }
MC_HARNESS(truncated_64) { truncated<F488>(); }

// A write or seek that fails anywhere is noticed.
template <class T> static void write_faults()
{
	mc::set_deviation_bound(mc::thorough() ? 3 : 2);
	size_t n = mc::choose(6), m = mc::choose(6); bool sticky = mc::flip();
	mc::job();
	blob a, b; a.data = pattern(n); b.data = pattern(m, 'K'); bool fired = false;
	ref_file f(pattern(2, '<')); f.pos = 2;
	f.fault = [&](char op, uint64_t pos, size_t len) -> size_t {
		if (fired && sticky) return 1;
		size_t c = mc::choose_dev(op == 'w' && len > 1 ? 3 : 2); if (c) { fired = true; MC_LOG("%c at %llu, %zu bytes: fault %zu", op, (unsigned long long)pos, len, c); } return c;
	};
	bytes e = pattern(2, '<'), x = T::enc(T::A, a.data), y = T::enc(T::B, b.data); e.insert(e.end(), x.begin(), x.end()); e.insert(e.end(), y.begin(), y.end());
	f << typename T::template rec<T::A>(a);
	if (f.ok()) { f << typename T::template rec<T::B>(b); }
	MC_LOG("state %s, content %s", st_name(f.state()), show(f.data).c_str());
	if (f.ok()) MC_CHECK(f.data == e && f.pos == e.size(), "idrec.fault", "no error is reported, and the file holds %s (at %llu), expected %s", show(f.data).c_str(), (unsigned long long)f.pos, show(e).c_str());
	else MC_CHECK(fired, "idrec.fault.false", "a failure is reported where nothing failed");
	mc::transition(2); mc::state(mc::hash(f.data.data(), f.data.size())); mc::outcome(mc::hash(f.data.data(), f.data.size(), f.ok())); if (fired) mc::nontrivial();
}
MC_HARNESS(write_faults_32) { write_faults<F444>(); }
MC_HARNESS(write_faults_8) { write_faults<F214>(); }
MC_HARNESS(stream_faults)
{
	mc::set_deviation_bound(2);
	size_t n = mc::choose(8), m = mc::choose(8);
	mc::job();
	blob a, b; a.data = pattern(n); b.data = pattern(m, 'K'); short_sink s(true);
	bytes e = F444::enc(F444::A, a.data), y = F444::enc(F444::B, b.data); e.insert(e.end(), y.begin(), y.end());
	(basic&)s << F444::rec<F444::A>(a) << F444::rec<F444::B>(b);
	if (s.ok()) MC_CHECK(s.data == e, "idrec.fault.stream", "no error is reported and the stream got %s", show(s.data).c_str());
	else MC_CHECK(s.failed && s.data == sub(e, 0, s.data.size()), "idrec.fault.stream", "up to the failure the stream got %s", show(s.data).c_str());
	mc::transition(2); mc::state(mc::hash(s.data.data(), s.data.size())); mc::outcome(mc::hash(s.data.data(), s.data.size(), s.ok())); if (s.failed) mc::nontrivial();
}

// A read or seek that fails or comes short anywhere: no error means the right data at the right place.
struct flaky_source : public short_source {
	bool fired = false, sticky; flaky_source(const bytes& d, bool s) : short_source(d, false), sticky(s) {}
	size_t read(void* p, size_t n) override
	{
		if (n && ((fired && sticky) || mc::choose_dev(2))) { fired = true; m_state = state_t::fail; return 0; }
		return short_source::read(p, n);
	}
};
MC_HARNESS(read_faults)
{
	mc::set_deviation_bound(2);
	size_t n = mc::choose(8), w = mc::choose(9), first = mc::choose(4); bool sticky = mc::flip();
	mc::job();
	blob a; a.data = pattern(n, 'K'); bytes lead = F444::enc(F444::B, pattern(first)), e = F444::enc(F444::A, a.data), all = lead; all.insert(all.end(), e.begin(), e.end());
	bytes tail = F444::enc(F444::B, { 9 }); all.insert(all.end(), tail.begin(), tail.end());
	bool fired = false; blob x, y; x.want = y.want = w;
	if (mc::flip()) {
		ref_file f(all);
		f.fault = [&](char op, uint64_t pos, size_t len) -> size_t {
			if (fired && sticky) return 1;
			size_t c = mc::choose_dev(2); if (c) { fired = true; MC_LOG("%c at %llu, %zu bytes fails", op, (unsigned long long)pos, len); } return c;
		};
		if (!F444::rec<F444::A>::find((basic_file&)f)) { MC_CHECK(fired, "idrec.fault.false", "a record is not found where nothing failed"); return; }
		MC_CHECK(f.pos == lead.size() + 4, "idrec.fault.find", "after a failure a record is found at %llu", (unsigned long long)f.pos);
		f >> F444::rec<F444::A>(x);
		if (f.ok()) MC_CHECK(x.data == sub(a.data, 0, w) && f.pos == lead.size() + e.size(), "idrec.fault.read", "no error is reported, and %zu of %zu bytes read as %s, the position is %llu", w, n, show(x.data).c_str(), (unsigned long long)f.pos);
		else MC_CHECK(fired, "idrec.fault.false", "a failure is reported where nothing failed");
	}
	else {
		flaky_source q(sub(all, lead.size() + 4, SIZE_MAX), sticky);
		(basic&)q >> F444::rec<F444::A>(y); fired = q.fired;
		if (q.ok()) MC_CHECK(y.data == sub(a.data, 0, w) && q.pos == e.size() - 4, "idrec.fault.read.stream", "no error is reported, and %zu of %zu bytes read as %s, %zu bytes were consumed", w, n, show(y.data).c_str(), q.pos);
		else MC_CHECK(fired, "idrec.fault.false", "a failure is reported where nothing failed");
	}
	mc::transition(2); mc::state(mc::hmix(mc::hmix(n, w), first)); mc::outcome(mc::hmix(mc::hmix(n, w), fired)); if (fired) mc::nontrivial();
}

// Data too long for the size field, at any depth: either refused or readable again, never announced as something else.
template <class T> static void oversized(const std::vector<size_t>& sizes)
{
	size_t n = mc::pick(sizes), how = mc::choose(5), first = mc::choose(2) * 3; mc::job();
	blob a; a.data = pattern(n, 'A'); blob b; b.data = pattern(first, 'b');
	bytes lead = T::enc(T::B, b.data); bool fits = n <= std::numeric_limits<typename T::size_t_>::max(), refused = false; bytes got;
	switch (how) {
	case 0: { ref_file f; put<T>((basic_file&)f, false, b); try { put<T>((basic_file&)f, true, a); refused = !f.ok(); } catch (const std::exception&) { refused = true; } got = f.data; break; }
	case 1: { memory_file m(4); put<T>((basic_file&)m, false, b); try { put<T>((basic_file&)m, true, a); refused = !m.ok(); } catch (const std::exception&) { refused = true; } got.assign((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()); break; }
	case 2: { short_sink s; put<T>((basic&)s, false, b); try { put<T>((basic&)s, true, a); refused = !s.ok(); } catch (const std::exception&) { refused = true; } got = s.data; MC_CHECK(!refused || got == lead, "idrec.oversized", "a stream got %zu bytes of a refused record", got.size() - lead.size()); break; }
	case 3: { std::ostringstream s; put<T>((std::ostream&)s, false, b); try { put<T>((std::ostream&)s, true, a); refused = s.fail(); } catch (const std::exception&) { refused = true; } std::string o = s.str(); got.assign(o.begin(), o.end()); break; }
	case 4: { ref_file f; put<T>((basic_file&)f, false, b); try { auto at = T::template rec<T::A>::open((basic_file&)f); f << a; refused = T::template rec<T::A>::close((basic_file&)f, at) == fpos_max; } catch (const std::exception&) { refused = true; } got = f.data; break; }
	}
	MC_CHECK(refused == !fits, "idrec.oversized", "%zu bytes in a record whose size takes %zu are %s (%s)", n, sizeof(typename T::size_t_), refused ? "refused" : "accepted", how == 0 ? "file" : how == 1 ? "memory file" : how == 2 ? "stream" : how == 3 ? "ostream" : "open and close");
	if (fits) { bytes e = T::enc(T::A, a.data); e.insert(e.begin(), lead.begin(), lead.end()); MC_CHECK(got == e, "idrec.layout", "%zu bytes are written in another way", n); }
	MC_CHECK(got.size() >= lead.size() && sub(got, 0, lead.size()) == lead, "idrec.oversized", "the record before is changed");
	mc::transition(); mc::state(mc::hmix(n, how)); mc::outcome(refused); if (!fits) mc::nontrivial();
}
MC_HARNESS(oversized_8) { oversized<F214>({ 0, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 65535, 65536 }); }
MC_HARNESS(oversized_16) { oversized<F221>({ 255, 256, 65534, 65535, 65536, 65537, 131071, 131072 }); }
