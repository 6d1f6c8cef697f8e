SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="idrec-find-at-limit", property="S15", file="idrec.hpp",
 edits=[("			while (end == stdex::stream::fpos_max || stream.tell() < end) {", "			while (end == stdex::stream::fpos_max || stream.tell() <= end) {")],
 needs="looking for a record in a range that another record follows immediately",
 breaks="the record beyond the range is found",
 demo=r'''
#include <stdex/idrec.hpp>
#include <stdex/stream.hpp>
using namespace stdex;
int main()
{
	stream::memory_file f(100);
	auto put = [&](uint32_t id) { auto s = idrec::open<uint32_t, uint32_t>(f, id); f << (uint32_t)7; idrec::close<uint32_t, uint32_t, 1>(f, s); };
	put(1); auto end = f.tell(); put(2);
	f.seekbeg(0);
	if (idrec::find<uint32_t, uint32_t, 1>(f, (uint32_t)2, end)) return 1;
	f.seekbeg(0);
	return idrec::find<uint32_t, uint32_t, 1>(f, (uint32_t)2) ? 0 : 1;
}
''')

seed(id="mapping-hint-at-boundary", property="U02", file="mapping.hpp",
 edits=[("				if (mapping.size() - 1 <= m || from < mapping[m + 1].from)", "				if (mapping.size() - 1 <= m || from <= mapping[m + 1].from)")],
 needs="the index of a mapping looked up with the hint at the mapping before it",
 breaks="the destination is counted from the previous mapping",
 demo=r'''
#include <stdex/mapping.hpp>
#include <vector>
int main()
{
	std::vector<stdex::mapping<size_t>> v{ { 0, 0 }, { 10, 100 }, { 20, 110 } };
	size_t m = 0;
	if (stdex::src2dst<size_t>(v, 5, m) != 5) return 1;
	return stdex::src2dst<size_t>(v, 10, m) == 100 ? 0 : 1;
}
''')

seed(id="date-year-left-behind", property="P05", file="parser.hpp",
 edits=[("								if (year) year->invalidate();\n								this->interval.start = start;\n								for (this->interval.end = month->interval.end;", "								this->interval.start = start;\n								for (this->interval.end = month->interval.end;")],
 needs="a date with a year and then one without, parsed with the same object",
 breaks="the second date has the year of the first",
 demo=r'''
#include <stdex/parser.hpp>
using namespace stdex::parser;
int main()
{
	std::vector<std::shared_ptr<basic_parser<char>>> d;
	for (char c = '0'; c <= '9'; c++) d.push_back(std::make_shared<cu>(c));
	auto num = [&] { return std::make_shared<integer10>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]); };
	auto sep = std::make_shared<cu_set>(".", 1);
	auto space = std::make_shared<space_cu>();
	basic_date<char> p(date_format_dmy | date_format_dm, num(), num(), num(), sep, space);
	const char a[] = "1.2.2020", b[] = "3.4";
	if (!p.match(a, 0, 8) || !p.year->interval) return 2;
	if (!p.match(b, 0, 3) || p.format != date_format_dm) return 2;
	return p.year->interval ? 1 : 0;
}
''')

seed(id="lazy-progress-same-value", property="C10", file="progress.hpp",
 edits=[("			if (value == m_start || value == m_end)\n				m_last = std::chrono::high_resolution_clock::now();\n			else if (value == m_value)\n				return;\n			else {",
         "			if (value == m_value)\n				return;\n			if (value == m_start || value == m_end)\n				m_last = std::chrono::high_resolution_clock::now();\n			else {")],
 needs="a new range that begins or ends with the value shown last",
 breaks="the beginning or end of the second range is not shown",
 demo=r'''
#include <stdex/progress.hpp>
struct P : stdex::lazy_progress<int> { int shown = 0; P() : lazy_progress(std::chrono::hours(1)) {} void do_set() override { shown++; } };
int main()
{
	P p;
	p.set_range(0, 10); p.set(0); p.set(10);
	p.set_range(10, 20); p.set(10);
	return p.shown == 3 ? 0 : 1;
}
''')

seed(id="async-writer-counts-refused", property="C07", file="stream.hpp",
 edits=[("					if (!ptr) _Unlikely_ {\n						m_state = state_t::fail;\n						return length - to_write;\n					}\n					if (to_write < num_write)\n						num_write = to_write;\n					memcpy(ptr, data, num_write);",
         "					if (!ptr) _Unlikely_ {\n						m_state = to_write == length ? state_t::fail : state_t::ok;\n						return length - to_write;\n					}\n					if (to_write < num_write)\n						num_write = to_write;\n					memcpy(ptr, data, num_write);")],
 needs="the sink fails while a write waits for space after a part of it was accepted",
 breaks="a write that was cut by a failed sink leaves the state ok",
 demo=r"""
#include <stdex/stream.hpp>
#include <chrono>
#include <thread>
using namespace stdex::stream;
struct sink : basic {
	size_t write(const void*, size_t) override { std::this_thread::sleep_for(std::chrono::milliseconds(200)); m_state = state_t::fail; return 0; }
};
int main()
{
	sink s;
	async_writer<8> w(s);
	char data[100] = {};
	size_t n = w.write(data, sizeof data);
	return n < sizeof data && w.state() == state_t::fail ? 0 : 1;
}
""", flags="-lpthread")

seed(id="fifo-offset-after-close", property="S08", file="stream.hpp",
 edits=[("				m_size = m_offset = 0;\n				while (m_head) {", "				m_size = 0;\n				while (m_head) {")],
 needs="close() in the middle of a block, then using the queue again",
 breaks="the beginning of the first new block is skipped",
 demo=r'''
#include <stdex/stream.hpp>
#include <string.h>
int main()
{
	stdex::stream::fifo f; char b[8];
	f.write("abcd", 4); f.read(b, 2);
	f.close();
	f.write("efgh", 4);
	return f.size() == 4 && f.read(b, 4) == 4 && !memcmp(b, "efgh", 4) ? 0 : 1;
}
''')

seed(id="base64-state-after-padding", property="S13", file="base64.hpp",
 edits=[("			m_num = 0;\n			out.push_back((T)(((m_buf[0] << 2) | (m_buf[1] >> 4)) & 0xff));\n			if (m_buf[2] < 64) {\n				out.push_back((T)(((m_buf[1] << 4) | (m_buf[2] >> 2)) & 0xff));\n				if (m_buf[3] < 64) {\n					out.push_back((T)(((m_buf[2] << 6) | m_buf[3]) & 0xff));\n					return 3;",
         "			out.push_back((T)(((m_buf[0] << 2) | (m_buf[1] >> 4)) & 0xff));\n			if (m_buf[2] < 64) {\n				out.push_back((T)(((m_buf[1] << 4) | (m_buf[2] >> 2)) & 0xff));\n				if (m_buf[3] < 64) {\n					out.push_back((T)(((m_buf[2] << 6) | m_buf[3]) & 0xff));\n					m_num = 0;\n					return 3;")],
 needs="decoding a second text with the same session, the first having ended with padding",
 breaks="the end of the first text is decoded again instead of the second",
 demo=r'''
#include <stdex/base64.hpp>
#include <string>
#include <vector>
int main()
{
	stdex::base64_dec d; bool last; std::vector<char> a, b;
	d.decode(a, last, "YWI=", 4); if (!last || std::string(a.begin(), a.end()) != "ab") return 2;
	d.decode(b, last, "Y2RlZg==", 8);
	return last && std::string(b.begin(), b.end()) == "cdef" ? 0 : 1;
}
''')
