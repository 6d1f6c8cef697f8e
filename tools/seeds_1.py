SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="ring-sender-misses-quit", property="C02", file="ring.hpp",
 edits=[("m_head_moved.wait(lk, [&]{return m_quit || space();});", "m_head_moved.wait(lk, [&]{return space() > 0;});")],
 needs="quit() while the sender is blocked on a full ring that nobody reads any more",
 breaks="the blocked sender never returns after quit()",
 demo=r'''
#include <stdex/ring.hpp>
#include <chrono>
#include <future>
#include <thread>
#include <tuple>
#include <unistd.h>
int main()
{
	auto& r = *new stdex::ring<int, 2>;
	r.back(); r.push(2);
	auto f = std::async(std::launch::async, [&] { return std::get<0>(r.back()) == nullptr; });
	std::this_thread::sleep_for(std::chrono::milliseconds(200));
	r.quit();
	if (f.wait_for(std::chrono::seconds(5)) != std::future_status::ready) _exit(1);
	_exit(f.get() ? 0 : 1);
}
''')

seed(id="watchdog-reset-during-callback", property="C05", file="watchdog.hpp",
 edits=[("					std::unique_lock<std::mutex> lk(m_mutex);\n					m_cv.wait(lk, [&] {return m_quit || phase != m_phase; });", "					std::unique_lock<std::mutex> lk(m_mutex);\n					phase = m_phase;\n					m_cv.wait(lk, [&] {return m_quit || phase != m_phase; });")],
 needs="reset() while the callback is still running and no other reset() afterwards",
 breaks="the reset is lost: the watchdog stays disarmed and misses the next timeout",
 demo=r'''
#include <stdex/watchdog.hpp>
#include <atomic>
#include <chrono>
#include <thread>
int main()
{
	std::atomic<int> fired{ 0 };
	stdex::watchdog<std::chrono::steady_clock> w(std::chrono::milliseconds(100), [&] { ++fired; std::this_thread::sleep_for(std::chrono::milliseconds(400)); });
	std::this_thread::sleep_for(std::chrono::milliseconds(300)); // in the callback
	w.reset();
	std::this_thread::sleep_for(std::chrono::milliseconds(1500));
	return fired == 2 ? 0 : 1;
}
''', flags="-lpthread")

seed(id="replicator-flush-not-awaited", property="C08", file="stream.hpp",
 edits=[("				for (auto w = m_workers.begin(), w_end = m_workers.end(); w != w_end; ++w) {\n					auto _w = w->get();\n					{\n						const std::lock_guard<std::mutex> lk(_w->mutex);\n						_w->op = op;\n					}\n					_w->cv.notify_one();\n				}\n				m_state = state_t::ok;",
         "				for (auto w = m_workers.begin(), w_end = m_workers.end(); w != w_end; ++w) {\n					auto _w = w->get();\n					{\n						const std::lock_guard<std::mutex> lk(_w->mutex);\n						_w->op = op;\n					}\n					_w->cv.notify_one();\n				}\n				if (op == worker::op_t::flush && ok())\n					return; // The next operation is going to wait for the workers.\n				m_state = state_t::ok;")],
 needs="a flush() followed by an operation (or look at the streams) before the worker got to it",
 breaks="flush() returns before the streams are flushed, and the following operation overwrites the pending flush",
 demo=r'''
#include <stdex/stream.hpp>
#include <chrono>
#include <thread>
using namespace stdex::stream;
struct sink : public basic {
	size_t bytes = 0, flushes = 0;
	size_t write(const void*, size_t n) override { bytes += n; m_state = state_t::ok; return n; }
	void flush() override { std::this_thread::sleep_for(std::chrono::milliseconds(200)); flushes++; m_state = state_t::ok; }
};
int main()
{
	sink a; size_t seen;
	{
		replicator r; r.push_back(&a);
		r.write("abc", 3);
		r.flush();
		seen = a.flushes;
	}
	return seen == 1 && a.bytes == 3 ? 0 : 1;
}
''')

seed(id="cache-seek-end-of-source", property="S03", file="stream.hpp",
 edits=[("				case seek_t::end: {\n					auto n = size();\n					if (n == fsize_max) _Unlikely_{", "				case seek_t::end: {\n					auto n = m_source->size();\n					if (n == fsize_max) _Unlikely_{", 0)],
 needs="seeking from the end while the cache holds unwritten data past the end of the file",
 breaks="the end is taken from the underlying file: the position is wrong and following writes overwrite cached data",
 demo=r'''
#include <stdex/stream.hpp>
using namespace stdex::stream;
int main()
{
	memory_file f(64);
	cache c(f, 16);
	c.write("hello", 5);
	return c.seekend(0) == 5 ? 0 : 1;
}
''')

seed(id="window-write-skip-exact", property="S06", file="stream.hpp",
 edits=[("				if (length <= write_offset) {\n					write_offset -= length;", "				if (length < write_offset) {\n					write_offset -= length;")],
 needs="a write exactly as long as what is left to skip before the window, over a stream that gives zero-length writes a meaning (a message pipe)",
 breaks="the discarded write reaches the stream as a zero-length write",
 demo=r'''
#include <stdex/stream.hpp>
using namespace stdex::stream;
struct sink : public basic {
	size_t calls = 0;
	size_t write(const void*, size_t n) override { calls++; m_state = state_t::ok; return n; }
};
int main()
{
	sink s;
	window w(s, 0, fsize_max, 3, 4);
	size_t n = w.write("abc", 3);
	return n == 3 && s.calls == 0 ? 0 : 1;
}
''')

seed(id="buffer-direct-write-unflushed", property="S05", file="stream.hpp",
 edits=[("					if (available_buffer) {\n						memcpy(m_write_buffer.data + m_write_buffer.tail, data, available_buffer);", "					if (available_buffer && to_write - available_buffer <= m_write_buffer.capacity) {\n						memcpy(m_write_buffer.data + m_write_buffer.tail, data, available_buffer);"),
        ("						if (m_write_buffer.head == m_write_buffer.tail)\n							m_write_buffer.head = m_write_buffer.tail = 0;\n						else\n							return length - to_write;", "						if (m_write_buffer.head == m_write_buffer.tail || !ok())\n							m_write_buffer.head = m_write_buffer.tail = 0;\n						else\n							return length - to_write;")],
 needs="the stream below fails while the buffer is being emptied for a further write",
 breaks="buffered data that was accepted earlier is thrown away silently and the write goes on",
 demo=r'''
#include <stdex/stream.hpp>
#include <string>
using namespace stdex::stream;
struct sink : public basic {
	std::string got; int calls = 0;
	size_t write(const void* p, size_t n) override { if (++calls == 1) { m_state = state_t::fail; return 0; } got.append((const char*)p, n); m_state = state_t::ok; return n; }
};
int main()
{
	sink s;
	{
		buffer b(s, 4, 4);
		b.write("abc", 3);
		size_t n = b.write("defg", 4);   // the sink fails once
		if (n == 4 && !b.ok()) return 1;
		b.flush();
	}
	return s.got.compare(0, 3, "abc") == 0 ? 0 : 1;
}
''')

seed(id="async-reader-pop-before-copy", property="C06", file="stream.hpp",
 edits=[("						m_state = to_read < length || !length ? state_t::ok : m_source->state();\n						return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.\n					}\n					if (to_read < num_read)\n						num_read = to_read;\n					memcpy(data, ptr, num_read);\n					m_ring.pop(num_read);", 
         "						m_state = to_read < length || !length ? state_t::ok : m_source->state();\n						return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.\n					}\n					if (to_read < num_read)\n						num_read = to_read;\n					m_ring.pop(num_read);\n					memcpy(data, ptr, num_read);")],
 needs="the read-ahead thread refills the just released space before the reader copied it",
 breaks="the reader gets bytes from further down the stream in place of its own",
 demo=r'''
// A source that is always ready; the reader is slowed down by reading big portions of a full ring.
#include <stdex/stream.hpp>
#include <string.h>
#include <vector>
using namespace stdex::stream;
struct src : public basic {
	uint64_t pos = 0;
	size_t read(void* p, size_t n) override { if (pos >= (64u << 20)) { m_state = state_t::eof; return 0; } memset(p, (int)(pos >> 20), n); size_t k = n; pos += k; m_state = state_t::ok; return k; }
};
int main()
{
	for (int round = 0; round < 20; round++) {
		src s;
		async_reader<0x400000> r(s);
		std::vector<uint8_t> b(0x400000);
		uint8_t last = 0;
		for (;;) {
			size_t n = r.read(b.data(), b.size());
			if (!n) break;
			for (size_t i = 0; i < n; i++) { if (b[i] < last) return 1; last = b[i]; }
		}
	}
	return 0;
}
''', seconds=200)

seed(id="aggregate-attach-without-state", property="C09", file="progress.hpp",
 edits=[("			m_host = host;\n			if (m_host) {\n				m_host->set_range(m_start, m_end);\n				m_host->set(m_value);\n			}\n		}\n\n		///\n		/// Detach", "			if (m_host == host)\n				return;\n			const bool initial = !m_host && !m_value;\n			m_host = host;\n			if (m_host && !initial) {\n				m_host->set_range(m_start, m_end);\n				m_host->set(m_value);\n			}\n		}\n\n		///\n		/// Detach", 0)],
 needs="a host attached after the workers announced their ranges and before any made progress",
 breaks="the host never learns the combined range",
 demo=r'''
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <vector>
#include <stdex/progress.hpp>
struct host : public stdex::progress<int> { int e = -1; void set_range(int, int end) override { e = end; } };
int main()
{
	stdex::aggregate_progress<int> a(2);
	a[0].set_range(0, 5); a[1].set_range(0, 7);
	host h; a.attach(&h);
	return h.e == 12 ? 0 : 1;
}
''')
