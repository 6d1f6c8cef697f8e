// Read-ahead and write-back streams, replicator: every schedule up to the preemption bound x faults of the streams below.
#include "mcsched.h"
#include "common.h"
#include <stdex/stream.hpp>
#include <thread>
using namespace std;
using namespace stdex::stream;
static sched::Opt opt(int q, int t, int sp = 0) { sched::Opt o; o.preempt = mc::thorough() ? t : q; o.spurious = sp; o.job_at = 3; return o; }

template <size_t N> static void reader_case(size_t maxlen)
{
	size_t len = mc::choose(maxlen + 1);
	size_t how = mc::choose(2);                 // ends with EOF or an error
	size_t chunk = 1 + mc::choose(N + 1);
	size_t stop_after = mc::choose(3);          // 0: read to the end, else give up after so many reads
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	sched::run(opt(3, 4, 1), [&] {
		bytes all = pattern(len);
		MC_HEAP(short_source, src, all);
		if (how) src.fail_at = len;
		bytes got; state_t last = state_t::ok; size_t n = 0;
		{
			MC_HEAP(async_reader<N>, r, src);
			for (;;) {
				if (stop_after && n == stop_after) break;
				uint8_t buf[16]; memset(buf, '#', sizeof buf);
				size_t k = r.read(buf, chunk); n++;
				MC_LOG("read(%zu) -> %zu %s", chunk, k, st_name(r.state()));
				MC_CHECK(k <= chunk, "areader-count", "read(%zu) returns %zu", chunk, k);
				got.insert(got.end(), buf, buf + k);
				for (size_t i = k; i < sizeof buf; i++) MC_CHECK(buf[i] == '#', "areader-overrun", "read(%zu) returns %zu but writes byte %zu", chunk, k, i);
				MC_CHECK(got.size() <= len && equal(got.begin(), got.end(), all.begin()), "areader-data", "source %s, read %s", show(all).c_str(), show(got).c_str());
				last = r.state();
				if (k < chunk) MC_CHECK(got.size() == len, "areader-early", "read comes up short after %zu of %zu bytes", got.size(), len);
				if (!k) {
					MC_CHECK(last == (how ? state_t::fail : state_t::eof), "areader-state", "at the end the state is %s", st_name(last));
					break;
				}
				MC_CHECK(last == state_t::ok, "areader-state", "read of %zu bytes leaves state %s", k, st_name(last));
			}
			if (!stop_after) MC_CHECK(got.size() == len, "areader-lost", "%zu of %zu bytes", got.size(), len);
		}
		MC_CHECK(sched::threads_done(), "areader-thread", "the worker outlives the reader");
		MC_CHECK(src.pos <= got.size() + N, "areader-ahead", "%zu bytes taken from the source, %zu delivered, buffer %zu", src.pos, got.size(), N);
		uint64_t h = mc::hmix(mc::hmix(len * 4 + how, got.size()), src.pos * 4 + (int)last);
		mc::state(mc::hmix(h, N)); mc::outcome(mc::hmix(h, sched::steps()));
	});
}
MC_HARNESS(async_reader_1) { reader_case<1>(3); }
MC_HARNESS(async_reader_2) { reader_case<2>(4); }
MC_HARNESS(async_reader_3) { reader_case<3>(5); }

template <size_t N> static void writer_case(size_t ops)
{
	// w1, w2, w3: write so many bytes; f: flush; m: mark the end of the script
	vector<int> s;
	size_t k = mc::choose(ops) + 1;
	for (size_t i = 0; i < k; i++) s.push_back((int)mc::choose(4));
	bool faults = mc::flip(), closes = mc::flip();
	mc::set_deviation_bound(1);
	sched::run(opt(3, 4, mc::thorough() ? 1 : 0), [&] {
		MC_HEAP(short_sink, sink, faults); sink.control_faults = faults;
		bytes sent; bool failed = false, flushed_ok = false; size_t acked = 0;
		{
			MC_HEAP(async_writer<N>, w, sink);
			for (int x : s) {
				if (x < 3) {
					bytes d = pattern(x + 1, (uint8_t)('a' + sent.size()));
					size_t n = w.write(d.data(), d.size());
					MC_LOG("write(%d) -> %zu %s", x + 1, n, st_name(w.state()));
					MC_CHECK(n <= d.size(), "awriter-count", "write(%zu) returns %zu", d.size(), n);
					MC_CHECK((n == d.size()) == w.ok(), "awriter-state", "write of %zu of %zu bytes leaves state %s", n, d.size(), st_name(w.state()));
					if (n < d.size()) { failed = true; acked += n; sent.insert(sent.end(), d.begin(), d.begin() + n); break; }
					sent.insert(sent.end(), d.begin(), d.end()); acked += n;
					flushed_ok = false;
				}
				else {
					size_t flushes = sink.flushes, refusals = sink.refusals;
					w.flush();
					MC_LOG("flush -> %s, sink has %s", st_name(w.state()), show(sink.data).c_str());
					MC_CHECK(sink.flushes - flushes <= 1 && (sink.failed || sink.flushes > flushes), "awriter-flush", "flush() reaches the sink %zu times", sink.flushes - flushes);
					if (!w.ok() && !sink.failed) { MC_CHECK(sink.refusals > refusals, "awriter-flush-fail", "flush() fails although the sink never did"); MC_CHECK(sink.data == sent, "awriter-flush-lost", "the sink is flushed with %s of %s", show(sink.data).c_str(), show(sent).c_str()); }
					else if (w.ok()) {
						MC_CHECK(sink.flushes > flushes && sink.refusals == refusals, "awriter-flush-hides", "flush() of the sink %s, and that is reported as ok", sink.refusals > refusals ? "fails" : "does not happen");
						MC_CHECK(sink.data == sent, "awriter-flush-lost", "flush() reports ok, sink has %s of %s", show(sink.data).c_str(), show(sent).c_str());
						flushed_ok = true;
					}
					else { failed = true; MC_CHECK(sink.failed, "awriter-flush-fail", "flush() fails although the sink never did"); break; }
				}
			}
			if (closes) { // also after a failure
				size_t refusals = sink.refusals;
				w.close();
				MC_LOG("close -> %s, sink has %s", st_name(w.state()), show(sink.data).c_str());
				MC_CHECK(sink.closes == 1, "awriter-close", "close() reaches the sink %zu times", sink.closes);
				if (!sink.failed) MC_CHECK(w.ok() == (sink.refusals == refusals), "awriter-close-state", "close() of the sink %s, and the state is %s", sink.refusals > refusals ? "fails" : "succeeds", st_name(w.state()));
				if (w.ok()) { MC_CHECK(sink.refusals == refusals, "awriter-close-state", "close() of the sink fails and that is reported as ok"); MC_CHECK(sink.data == sent, "awriter-close-lost", "close() reports ok, sink has %s of %s", show(sink.data).c_str(), show(sent).c_str()); }
				if (failed && sink.failed) MC_CHECK(!w.ok(), "awriter-close-hides", "data was lost, and close() reports ok");
				if (!w.ok() && sink.failed) { failed = true; MC_CHECK(sink.failed, "awriter-close-fail", "close() fails although the sink never did"); }
			}
		}
		MC_CHECK(sched::threads_done(), "awriter-thread", "the worker outlives the writer");
		MC_CHECK(sink.data.size() <= sent.size() && equal(sink.data.begin(), sink.data.end(), sent.begin()), "awriter-data", "sink has %s of %s", show(sink.data).c_str(), show(sent).c_str());
		if (!sink.failed) {
			MC_CHECK(!failed, "awriter-spurious", "a failure is reported although the sink never failed");
			MC_CHECK(sink.data == sent, "awriter-lost", "sink has %s of %s", show(sink.data).c_str(), show(sent).c_str());
		}
		uint64_t h = mc::hmix(mc::hash(sink.data.data(), sink.data.size(), N), sent.size() * 4 + failed * 2 + flushed_ok);
		mc::state(h); mc::outcome(mc::hmix(h, sched::steps()));
		if (sink.failed) mc::nontrivial();
	});
}
MC_HARNESS(async_writer_1) { writer_case<1>(3); }
MC_HARNESS(async_writer_2) { writer_case<2>(3); }
MC_HARNESS(async_writer_4) { writer_case<4>(mc::thorough() ? 4 : 3); }

// A sink that goes bad for good but whose flush() works: what was acknowledged in the meantime may not pass as written.
MC_HARNESS(async_writer_forgetful_sink)
{
	size_t n1 = 1 + mc::choose(3), n2 = mc::choose(3); bool closes = mc::flip(), eof = mc::flip();
	mc::set_deviation_bound(1);
	sched::run(opt(3, 5), [&] {
		MC_HEAP(short_sink, sink, true); sink.sticky = false; if (eof) sink.bad = state_t::eof;
		bytes sent;
		{
			MC_HEAP(async_writer<4>, w, sink);
			bytes d = pattern(n1);
			size_t n = w.write(d.data(), d.size()); sent.insert(sent.end(), d.begin(), d.begin() + n);
			bool okay = n == d.size();
			if (okay && n2) { d = pattern(n2, 'p'); n = w.write(d.data(), d.size()); sent.insert(sent.end(), d.begin(), d.begin() + n); okay = n == d.size(); }
			if (closes) w.close(); else w.flush();
			MC_CHECK(w.ok() == !sink.failed, "awriter-flush-hides", "a write in the background %s, and the state is %s", sink.failed ? "failed" : "did not fail", st_name(w.state()));
			if (w.ok()) MC_CHECK(sink.data == sent, "awriter-flush-lost", "flush() reports ok, sink has %s of %s", show(sink.data).c_str(), show(sent).c_str());
			mc::state(mc::hmix(sink.data.size(), sent.size() * 2 + w.ok()));
		}
		if (sink.failed) mc::nontrivial(); mc::outcome(mc::hmix(sink.data.size(), sched::steps()));
	});
}

// --- replicator ---------------------------------------------------------------------------------
template <size_t SINKS> static void replicator_case(size_t ops, int q, int t, int spurious = 0)
{
	vector<int> s; // 0,1: write 1, 2 bytes; 2: flush; 3: close; 4: remove first; 5: add one; 6: empty write
	size_t k = mc::choose(ops) + 1;
	for (size_t i = 0; i < k; i++) s.push_back((int)mc::choose(7));
	mc::set_deviation_bound(1);
	bool faults = mc::flip();
	sched::run(opt(q, t, spurious), [&] {
		vector<unique_ptr<short_sink>> sinks; vector<short_sink*> in;
		struct want { bytes data; size_t flushes = 0, closes = 0; }; vector<want> w;
		{
			MC_HEAP(replicator, r);
			auto add = [&] { sinks.emplace_back(new short_sink(faults)); sinks.back()->sticky = false; sinks.back()->control_faults = faults; in.push_back(sinks.back().get()); r.push_back(in.back()); w.push_back(want()); };
			for (size_t i = 0; i < SINKS; i++) add();
			for (int x : s) {
				vector<size_t> before;
				for (auto& p : in) before.push_back(p->data.size());
				switch (x) {
				case 0: case 1: case 6: {
					bytes d = pattern(x == 6 ? 0 : x + 1, 'k');
					size_t n = r.write(d.data(), d.size());
					MC_LOG("write(%zu) -> %zu %s", d.size(), n, st_name(r.state()));
					size_t least = d.size(); bool bad = false;
					for (size_t i = 0; i < in.size(); i++) {
						size_t got = in[i]->data.size() - before[i];
						MC_CHECK(got <= d.size() && equal(in[i]->data.begin() + before[i], in[i]->data.end(), d.begin()), "replicator-data", "sink %zu gets %s for %s", i, show(in[i]->data).c_str(), show(d).c_str());
						least = min(least, got); if (!in[i]->ok()) bad = true;
						if (!in[i]->failed) MC_CHECK(got == d.size(), "replicator-lost", "sink %zu misses data when write() returns", i);
						w[i].data.insert(w[i].data.end(), in[i]->data.begin() + before[i], in[i]->data.end());
					}
					MC_CHECK(n == least, "replicator-count", "write(%zu) returns %zu, the slowest sink took %zu", d.size(), n, least);
					MC_CHECK(r.ok() == !bad, "replicator-state", "write leaves state %s, sinks %s", st_name(r.state()), bad ? "failed" : "are fine");
					break;
				}
				case 2: r.flush(); for (auto& q : w) q.flushes++; break;
				case 3: r.close(); for (auto& q : w) q.closes++; break;
				case 4: if (!in.empty()) { short_sink* g = in.front(); r.remove(g); in.erase(in.begin()); w.erase(w.begin()); } break;
				case 5: if (in.size() < 3) add(); break;
				}
				bool fine = true; for (auto& p : in) fine &= p->ok();
				if (x == 2 || x == 3) MC_CHECK(r.ok() == fine, "replicator-state", "%s leaves state %s", x == 2 ? "flush" : "close", st_name(r.state()));
				for (size_t i = 0; i < in.size(); i++)
					MC_CHECK(in[i]->data == w[i].data && in[i]->flushes == w[i].flushes && in[i]->closes == w[i].closes, "replicator-ops", "sink %zu: %zu bytes, %zu flushes, %zu closes; expected %zu, %zu, %zu",
						i, in[i]->data.size(), in[i]->flushes, in[i]->closes, w[i].data.size(), w[i].flushes, w[i].closes);
			}
		}
		MC_CHECK(sched::threads_done(), "replicator-thread", "a worker outlives the replicator");
		uint64_t h = 5;
		for (auto& p : sinks) h = mc::hmix(mc::hash(p->data.data(), p->data.size(), h), p->flushes * 16 + p->closes);
		mc::state(h); mc::outcome(mc::hmix(h, sched::steps()));
	});
}
MC_HARNESS(replicator_one) { replicator_case<1>(3, 1, 2); }
MC_HARNESS(replicator_two) { replicator_case<2>(2, 1, 2); }
MC_HARNESS(replicator_spurious_one) { replicator_case<1>(2, 0, 1, mc::thorough() ? 2 : 1); }
MC_HARNESS(replicator_spurious_two) { replicator_case<2>(1, 0, 1, 1); }

// --- the same with real sizes -------------------------------------------------------------------
namespace {
	inline uint8_t nth(uint64_t i) { return (uint8_t)((i * 0x9E3779B97F4A7C15ull) >> 56); }
	struct large_source : public basic {
		uint64_t pos = 0, len; size_t piece; bool bad;
		large_source(uint64_t len, size_t piece, bool bad) : len(len), piece(piece), bad(bad) {}
		size_t read(void* p, size_t n) override
		{
			n = (size_t)min<uint64_t>(min(n, piece), len - pos);
			for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = nth(pos + i);
			pos += n; m_state = n ? state_t::ok : bad ? state_t::fail : state_t::eof;
			return n;
		}
	};
	struct large_sink : public basic {
		uint64_t pos = 0, limit; size_t flushes = 0; bool wrong = false;
		large_sink(uint64_t limit) : limit(limit) {}
		size_t write(const void* p, size_t n) override
		{
			size_t m = (size_t)min<uint64_t>(n, limit - pos);
			for (size_t i = 0; i < m; i++) if (((const uint8_t*)p)[i] != nth(pos + i)) wrong = true;
			pos += m; m_state = m < n ? state_t::fail : state_t::ok;
			return m;
		}
		void flush() override { flushes++; m_state = state_t::ok; }
	};
	template <size_t N> void reader_large()
	{
		static const uint64_t lens[] = { 0, N - 1, N, N + 1, 2 * N + 77, 5 * N }; static const size_t pieces[] = { N / 4 + 1, N, 3 * N + 5 }, chunks[] = { N / 3 + 1, N, N + 1, 4 * N };
		uint64_t len = mc::pick(lens); size_t piece = mc::pick(pieces), chunk = mc::pick(chunks); bool bad = mc::flip();
		sched::run(opt(1, 2), [&] {
			MC_HEAP(large_source, src, len, piece, bad);
			uint64_t at = 0; vector<uint8_t> buf(chunk + 1);
			{
				MC_HEAP(async_reader<N>, r, src);
				for (;;) {
					buf[chunk] = '#'; size_t k = r.read(buf.data(), chunk);
					MC_CHECK(k == (size_t)min<uint64_t>(chunk, len - at) && buf[chunk] == '#', "areader-count", "read(%zu) at %llu of %llu returns %zu", chunk, (unsigned long long)at, (unsigned long long)len, k);
					for (size_t i = 0; i < k; i++) MC_CHECK(buf[i] == nth(at + i), "areader-data", "byte %llu is wrong", (unsigned long long)(at + i));
					at += k; mc::transition();
					MC_CHECK(r.state() == (k ? state_t::ok : bad ? state_t::fail : state_t::eof), "areader-state", "state %s at %llu of %llu", st_name(r.state()), (unsigned long long)at, (unsigned long long)len);
					if (!k) break;
				}
			}
			MC_CHECK(at == len && sched::threads_done(), "areader-lost", "%llu of %llu bytes", (unsigned long long)at, (unsigned long long)len);
			mc::state(mc::hmix(len, chunk)); mc::outcome(mc::hmix(mc::hmix(len, chunk), sched::steps())); mc::nontrivial();
		});
	}
	template <size_t N> void writer_large()
	{
		static const uint64_t lens[] = { N - 1, N, N + 1, 2 * N + 77, 5 * N }; static const size_t chunks[] = { N / 3 + 1, N, N + 1, 4 * N };
		uint64_t len = mc::pick(lens), limit = mc::flip() ? len / 2 + 1 : UINT64_MAX; size_t chunk = mc::pick(chunks); size_t how = mc::choose(3); // flush at the end, in between too, or not at all
		sched::run(opt(1, 2), [&] {
			MC_HEAP(large_sink, sink, limit);
			uint64_t at = 0; bool failed = false; vector<uint8_t> buf(chunk);
			{
				MC_HEAP(async_writer<N>, w, sink);
				while (at < len && !failed) {
					size_t n = (size_t)min<uint64_t>(chunk, len - at);
					for (size_t i = 0; i < n; i++) buf[i] = nth(at + i);
					size_t k = w.write(buf.data(), n); at += k; failed = k < n; mc::transition();
					MC_CHECK(k <= n && w.ok() == !failed, "awriter-count", "write(%zu) returns %zu, state %s", n, k, st_name(w.state()));
					if (how == 1 && !failed) { w.flush(); failed = !w.ok(); MC_CHECK(failed || sink.pos == at, "awriter-flush-lost", "flush() reports ok with %llu of %llu bytes written", (unsigned long long)sink.pos, (unsigned long long)at); }
				}
				if (how < 2 && !failed) { w.flush(); failed = !w.ok(); MC_CHECK(failed || sink.pos == at, "awriter-flush-lost", "flush() reports ok with %llu of %llu bytes written", (unsigned long long)sink.pos, (unsigned long long)at); }
			}
			MC_CHECK(sched::threads_done() && !sink.wrong, "awriter-data", "the sink gets something else");
			MC_CHECK(sink.pos == min(at, limit), "awriter-lost", "%llu of %llu bytes", (unsigned long long)sink.pos, (unsigned long long)at);
			MC_CHECK(!failed || limit < len, "awriter-spurious", "a failure is reported although the sink never failed");
			if (how < 2) MC_CHECK(failed == (limit < len), "awriter-hides", "data was lost and no call tells");
			mc::state(mc::hmix(sink.pos, at)); mc::outcome(mc::hmix(mc::hmix(sink.pos, at), sched::steps())); mc::nontrivial();
		});
	}
	struct counting_sink : public basic {
		const void* last = nullptr; uint64_t total = 0; size_t writes = 0, short_by = 0, flushes = 0;
		size_t write(const void* p, size_t n) override { last = p; writes++; size_t m = n - min(n, short_by); total += m; m_state = m < n ? state_t::fail : state_t::ok; return m; }
		void flush() override { flushes++; m_state = state_t::ok; }
	};
}
MC_HARNESS(async_reader_large) { switch (mc::choose(4)) { case 0: reader_large<64>(); break; case 1: reader_large<1000>(); break; case 2: reader_large<65536>(); break; case 3: reader_large<70001>(); } }
MC_HARNESS(async_writer_large) { switch (mc::choose(4)) { case 0: writer_large<64>(); break; case 1: writer_large<1000>(); break; case 2: writer_large<65536>(); break; case 3: writer_large<70001>(); } }
// Writes of any length, to many streams, and many of them.
MC_HARNESS(replicator_large)
{
	static const size_t ns[] = { 1, 255, 65536, 0x1000003, (size_t)1 << 31, ((size_t)1 << 32) + 7 };
	size_t sinks = 1 + mc::choose(6), n = mc::pick(ns), times = mc::flip() ? 40 : 2; size_t shorter = mc::choose(2);
	sched::Opt o; o.preempt = 0; o.order = (int)mc::choose(3);
	sched::run(o, [&] {
		vector<unique_ptr<counting_sink>> s;
		uint64_t total = 0, shorts = 0;
		static uint8_t anchor[8];
		{
			MC_HEAP(replicator, r);
			for (size_t i = 0; i < sinks; i++) { s.emplace_back(new counting_sink); r.push_back(s.back().get()); }
			for (size_t t = 0; t < times; t++) {
				size_t k = n + t, e = k;
				if (shorter && t == times - 1) { s.back()->short_by = 1 + sinks; e = k - min(k, 1 + sinks); shorts = k - e; }
				size_t w = r.write(anchor + t % 3, k);
				MC_CHECK(w == e && r.ok() == (e == k), "replicator-count", "write(%zu) to %zu streams returns %zu, expected %zu, state %s", k, sinks, w, e, st_name(r.state()));
				total += k;
				for (size_t i = 0; i < sinks; i++) MC_CHECK(s[i]->last == anchor + t % 3 && s[i]->writes == t + 1 && s[i]->total == total - (i + 1 == sinks ? shorts : 0), "replicator-data", "stream %zu of %zu: %zu writes with %llu bytes after %zu writes with %llu", i, sinks, s[i]->writes, (unsigned long long)s[i]->total, t + 1, (unsigned long long)total);
				mc::transition();
			}
			r.flush();
			for (auto& x : s) MC_CHECK(x->flushes == 1, "replicator-ops", "%zu flushes", x->flushes);
		}
		MC_CHECK(sched::threads_done(), "replicator-thread", "a worker outlives the replicator");
		mc::state(mc::hmix(total, sinks)); mc::outcome(mc::hmix(total, sinks)); mc::nontrivial();
	});
}
