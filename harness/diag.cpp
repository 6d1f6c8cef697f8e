// diag_file: several files driven in step; any difference between them must be noticed, and only differences.
#include "common.h"
using namespace stdex::stream;

namespace {
	// A file the environment may make behave differently.
	struct odd_file : public ref_file {
		bool* may; bool odd = false; size_t locks = 0, unlocks = 0; uint64_t range = 0;
		odd_file(const bytes& d, bool* m) : ref_file(d), may(m) {}
		bool strike(const char* what) const { if (*may && mc::choose_dev(2)) { MC_LOG("    a file behaves differently: %s", what); const_cast<odd_file*>(this)->odd = true; return true; } return false; }
		size_t read(void* p, size_t n) override { size_t r = ref_file::read(p, n); if (r && strike("data")) { ((uint8_t*)p)[r - 1] ^= 1; return r; } if (r && strike("length")) { pos--; return r - 1; } if (strike("state")) m_state = m_state == state_t::ok ? state_t::eof : state_t::ok; return r; }
		size_t write(const void* p, size_t n) override { size_t r = ref_file::write(p, n); if (r && strike("length")) return r - 1; if (strike("state")) m_state = state_t::fail; return r; }
		void flush() override { ref_file::flush(); if (strike("state")) m_state = state_t::fail; }
		void close() override { ref_file::close(); if (strike("state")) m_state = state_t::fail; }
		stdex::stream::fpos_t seek(stdex::stream::foff_t o, stdex::stream::seek_t h) override { auto r = ref_file::seek(o, h); if (strike("position")) return r + 1; if (strike("state")) m_state = m_state == state_t::ok ? state_t::fail : state_t::ok; return r; }
		stdex::stream::fpos_t tell() const override { return pos + strike("position"); }
		stdex::stream::fsize_t size() const override { return data.size() + strike("size"); }
		void truncate() override { ref_file::truncate(); if (strike("state")) m_state = state_t::fail; }
		void lock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { locks++; range = o * 100 + n; m_state = strike("state") ? state_t::fail : state_t::ok; }
		void unlock(stdex::stream::fpos_t o, stdex::stream::fsize_t n) override { unlocks++; range = o * 100 + n; m_state = strike("state") ? state_t::fail : state_t::ok; }
	};
}

MC_HARNESS(diag_file_ops)
{
	size_t count = mc::choose(4), depth = !count ? 2 : count == 3 && !mc::thorough() ? 3 : mc::thorough() ? 5 : 4;
	size_t ops[5]; ops[0] = mc::choose(16); ops[1] = mc::choose(16);
	mc::job();
	mc::set_deviation_bound(1);
	bool may = false; std::vector<std::unique_ptr<odd_file>> f; std::vector<basic_file*> p;
	for (size_t i = 0; i < count; i++) { f.emplace_back(new odd_file(pattern(4), &may)); p.push_back(f.back().get()); }
	model_file m; m.data = pattern(4); uint8_t fill = 'A'; size_t locks = 0, unlocks = 0, flushes = 0, closes = 0; uint64_t range = 0;
	diag_file d(p.data(), count);
	MC_CHECK(d.state() == (count ? state_t::ok : state_t::fail), "diag.state", "initial state %s", st_name(d.state()));
	for (size_t i = 0; i < depth; i++) {
		size_t op = i < 2 ? ops[i] : mc::choose(16); may = true;
		uint8_t b[8]; size_t r = 0; state_t e = state_t::ok; bool threw = false, states = true; uint64_t v = 0, ev = 0; bytes got, exp;
		static const size_t sz[] = { 1, 3, 6, 0 };
		try {
			switch (op) {
			case 0: case 1: case 2: case 3: r = d.read(b, sz[op]); exp = m.read(sz[op]); got.assign(b, b + r); e = exp.empty() && sz[op] ? state_t::eof : state_t::ok; v = r; ev = exp.size(); break;
			case 4: case 5: case 6: { size_t n = op == 6 ? 0 : sz[op - 4]; for (size_t j = 0; j < n; j++) b[j] = fill++; v = d.write(b, n); ev = n; m.write(b, n); break; }
			case 7: case 8: case 9: { foff_t o = op == 7 ? 2 : op == 8 ? -1 : 1; seek_t h = op == 7 ? seek_t::beg : op == 8 ? seek_t::cur : seek_t::end; int64_t t = o + (int64_t)(op == 7 ? 0 : op == 8 ? m.pos : m.data.size()); v = d.seek(o, h); if (t < 0) { e = state_t::fail; ev = fpos_max; } else ev = m.pos = (uint64_t)t; break; }
			case 10: v = d.tell(); ev = m.pos; states = false; break;
			case 11: v = d.size(); ev = m.data.size(); states = false; break;
			case 12: d.truncate(); m.data.resize(m.pos); break;
			case 13: flushes++; d.flush(); break;
			case 14: locks++; range = 203; d.lock(2, 3); break;
			case 15: if (mc::flip()) { unlocks++; range = 102; d.unlock(1, 2); } else { closes++; d.close(); } break;
			}
		} catch (const std::runtime_error&) { threw = true; }
		may = false;
		mc::transition(); mc::state(mc::hmix(m.h(), count));
		if (!count) {
			MC_CHECK(!threw && (!states || d.state() == (op == 13 || (op == 15 && closes) ? state_t::ok : state_t::fail)), "diag.empty", "operation %zu on no files: state %s", op, st_name(d.state()));
			if (op < 7) MC_CHECK(v == 0, "diag.empty", "operation %zu transfers %llu bytes with no files", op, (unsigned long long)v);
			closes = 0;
			if (op == 10) MC_CHECK(v == fpos_max, "diag.empty", "tell() of no files is %llu", (unsigned long long)v);
			if (op == 11) MC_CHECK(v == fsize_max, "diag.empty", "size() of no files is %llu", (unsigned long long)v);
			m = model_file(); continue;
		}
		size_t odd = 0; for (auto& x : f) odd += x->odd;
		if (odd) {
			mc::nontrivial();
			if (count > 1) MC_CHECK(threw, "diag.missed", "operation %zu: one of %zu files behaves differently and nothing is said", op, count);
			break; // the files differ from here on
		}
		MC_CHECK(!threw, "diag.throws", "operation %zu throws although %zu files agree", op, count);
		MC_CHECK(v == ev && (op > 3 || got == exp), "diag.result", "operation %zu gives %llu %s, expected %llu %s", op, (unsigned long long)v, show(got).c_str(), (unsigned long long)ev, show(exp).c_str());
		if (states) MC_CHECK(d.state() == e, "diag.state", "operation %zu leaves state %s", op, st_name(d.state()));
		for (auto& x : f) MC_CHECK(x->data == m.data && x->pos == m.pos && x->locks == locks && x->unlocks == unlocks && x->flushes == flushes && x->closes == closes && (!range || x->range == range), "diag.files", "after operation %zu a file holds %s at %llu", op, show(x->data).c_str(), (unsigned long long)x->pos);
	}
	mc::outcome(mc::hmix(m.h(), count));
}
