// The conveniences every stream has, against byte-level references, over sources that cut transfers short.
#include "common.h"
using namespace stdex::stream;

template <class T> static void readln_case(size_t maxunits)
{
	static const T al[] = { (T)'a', (T)'\r', (T)'\n', (T)0 };
	std::basic_string<T> all;
	size_t n = mc::choose(maxunits + 1);
	for (size_t i = 0; i < n; i++) all += mc::pick(al);
	bytes raw((const uint8_t*)all.data(), (const uint8_t*)(all.data() + all.size()));
	// The source may end within a code unit.
	if (sizeof(T) > 1) { size_t extra = mc::choose(sizeof(T)); uint8_t v = mc::flip() ? '\n' : 'b'; raw.insert(raw.end(), extra, 0); if (extra) raw[all.size() * sizeof(T)] = v; }
	mc::job();
	mc::set_deviation_bound(1);
	short_source src(raw);
	bool attach = mc::flip();
	typename std::basic_string<T>::size_type at = 0;
	for (size_t lines = 0;; lines++) {
		MC_CHECK(lines <= n + 1, "readln.end", "no end after %zu lines", lines);
		std::basic_string<T> got(2, (T)'z'), want;
		auto e = all.find((T)'\n', at);
		bool last = e == all.npos;
		want = all.substr(at, last ? all.npos : e - at);
		if (!last && !want.empty() && want.back() == (T)'\r') want.pop_back();
		if (attach) want = got + want;
		size_t r = attach ? src.readln_and_attach(got) : src.readln(got);
		MC_LOG("line %zu: %zu units, state %s", lines, got.size(), st_name(src.state()));
		MC_CHECK(r == got.size() && got == want, "readln.text", "line %zu of %s reads as %s, expected %s", lines, show(raw).c_str(), mc::quote(got.data(), got.size() * sizeof(T)).c_str(), mc::quote(want.data(), want.size() * sizeof(T)).c_str());
		MC_CHECK(src.ok() == !last, "readln.state", "line %zu of %s leaves state %s", lines, show(raw).c_str(), st_name(src.state()));
		mc::transition(); mc::state(mc::hash(got.data(), got.size() * sizeof(T), lines));
		if (last) break;
		at = e + 1;
		MC_CHECK(src.pos == at * sizeof(T), "readln.pos", "after line %zu the stream is at %zu", lines, src.pos);
	}
	mc::outcome(mc::hash(raw.data(), raw.size())); if (n > 1) mc::nontrivial();
}
MC_HARNESS(readln_narrow) { readln_case<char>(mc::thorough() ? 9 : 7); }
MC_HARNESS(readln_utf16) { readln_case<char16_t>(mc::thorough() ? 7 : 6); }
MC_HARNESS(readln_wide) { readln_case<wchar_t>(mc::thorough() ? 7 : 5); }

// Long lines, among short ones.
template <class T> static void long_lines()
{
	static const size_t sizes[] = { 127, 255, 1023, 4095, 32767, 65535, 131071, 262143 };
	static const T ends[][2] = { { '\n', 0 }, { '\r', '\n' } };
	size_t base = sizes[mc::choose(mc::thorough() ? 8 : 7)], off = mc::choose(3), e = mc::choose(3), inner = mc::choose(3); bool attach = mc::flip(), first = mc::flip();
	mc::job();
	std::vector<std::basic_string<T>> lines; std::basic_string<T> all, l; size_t n = base + off;
	for (size_t i = 0; i < n; i++) l += inner == 1 && i % 977 == 976 ? (T)'\r' : inner == 2 && i % 977 == 976 ? (T)0 : (T)('a' + i % 23);
	if (l.back() == '\r') l.back() = 'z';
	if (first) lines.push_back({ 'k' });
	lines.push_back(l); lines.push_back({}); lines.push_back(l); lines.push_back({ 'e' });
	for (size_t i = 0; i < lines.size(); i++) { all += lines[i]; if (i + 1 < lines.size()) all += std::basic_string<T>(ends[e == 2 ? i % 2 : e], (e == 2 ? i % 2 : e) + 1); }
	ref_file src(bytes((const uint8_t*)all.data(), (const uint8_t*)(all.data() + all.size())));
	for (size_t i = 0; i < lines.size(); i++) {
		std::basic_string<T> got(2, (T)'z'), want = attach ? got + lines[i] : lines[i];
		size_t r = attach ? src.readln_and_attach(got) : src.readln(got);
		MC_CHECK(r == got.size() && got == want, "readln.long", "line %zu of %zu characters reads as %zu or others", i, lines[i].size(), got.size());
		MC_CHECK(src.ok() == (i + 1 < lines.size()), "readln.long", "line %zu leaves state %s", i, st_name(src.state()));
	}
	mc::transition(n); mc::state(mc::hmix(n, sizeof(T))); mc::outcome(mc::hmix(mc::hmix(n, sizeof(T)), e * 4 + inner)); mc::nontrivial();
}
MC_HARNESS(long_lines_read)
{
	switch (mc::choose(3)) { case 0: long_lines<char>(); break; case 1: long_lines<char16_t>(); break; case 2: long_lines<wchar_t>(); break; }
}

// A line converted on the fly is the line, converted.
MC_HARNESS(readln_encoder)
{
	static const char* const al[] = { "a", "\r", "\n", "\xC4\x8D", "\xF0\x9F\x98\x80" };
	std::string all;
	size_t n = mc::choose(mc::thorough() ? 7 : 6);
	for (size_t i = 0; i < n; i++) all += mc::pick(al);
	mc::job();
	stdex::charset_encoder<char, char16_t> e16(stdex::charset_id::utf8, stdex::charset_id::utf16);
	stdex::charset_encoder<char, char> e8(stdex::charset_id::utf8, stdex::charset_id::utf8);
	short_source src(bytes(all.begin(), all.end()), false), ref(bytes(all.begin(), all.end()), false), same(bytes(all.begin(), all.end()), false);
	bool attach = mc::flip();
	do {
		std::string plain, same8(2, 'z'); std::u16string conv(2, u'z'), want;
		ref.readln(plain);
		if (attach) { src.readln_and_attach(conv, e16); same.readln_and_attach(same8, e8); want = u"zz"; }
		else { src.readln(conv, e16); same.readln(same8, e8); }
		stdex::charset_encoder<char, char16_t> fresh(stdex::charset_id::utf8, stdex::charset_id::utf16);
		fresh.strcat(want, plain);
		MC_CHECK(conv == want && src.state() == ref.state() && src.pos == ref.pos, "readln.encoder", "line %s of %s converts differently on the fly", show(plain).c_str(), show(all).c_str());
		MC_CHECK(same8 == (attach ? "zz" + plain : plain) && same.pos == ref.pos, "readln.encoder", "line %s of %s reads as %s with a null conversion", show(plain).c_str(), show(all).c_str(), show(same8).c_str());
		mc::transition(); mc::state(mc::hash(plain));
	} while (ref.ok());
	mc::outcome(mc::hash(all)); if (n > 1) mc::nontrivial();
}

MC_HARNESS(read_array_sizes)
{
	size_t size = 1 + mc::choose(4), count = mc::choose(5), len = mc::choose(14);
	bool error = mc::flip();
	mc::job();
	mc::set_deviation_bound(mc::thorough() ? 4 : 3);
	short_source src(pattern(len)); if (error) src.fail_at = len;
	uint8_t buf[24]; memset(buf, '#', sizeof buf);
	size_t r = src.read_array(buf, size, count), total = size * count, e = std::min(total, len);
	MC_CHECK(r == e / size, "read_array.count", "read_array(%zu x %zu) of %zu bytes returns %zu", size, count, len, r);
	MC_CHECK(memcmp(buf, src.data.data(), e) == 0, "read_array.data", "read_array(%zu x %zu) of %zu bytes gives %s", size, count, len, mc::quote(buf, e).c_str());
	for (size_t i = total; i < sizeof buf; i++) MC_CHECK(buf[i] == '#', "read_array.overrun", "byte %zu written by read_array(%zu x %zu)", i, size, count);
	MC_CHECK(src.state() == (len >= total ? state_t::ok : error ? state_t::fail : state_t::eof), "read_array.state", "read_array(%zu x %zu) of %zu bytes leaves state %s", size, count, len, st_name(src.state()));
	MC_CHECK(src.pos == e, "read_array.pos", "read_array(%zu x %zu) takes %zu bytes", size, count, src.pos);
	mc::transition(); mc::state(mc::hmix(r * 64 + len, total)); mc::outcome(r * 64 + e); if (r) mc::nontrivial();
}

static const uint64_t amounts[] = { 0, 1, 2, 15, 16, 17, 255, 65535, 65536, 65537, 131072, 131073 };
static bytes big(size_t n) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + i / 251); return b; }

MC_HARNESS(skip_amounts)
{
	uint64_t amount = mc::pick(amounts); size_t len = (size_t)mc::pick(amounts); bool error = mc::flip();
	mc::job();
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	short_source src(big(len)); if (error) src.fail_at = len;
	src.skip(amount);
	MC_CHECK(src.pos == std::min<uint64_t>(amount, len), "skip.pos", "skip(%llu) of %zu bytes takes %zu", (unsigned long long)amount, len, src.pos);
	MC_CHECK(src.state() == (len >= amount ? state_t::ok : error ? state_t::fail : state_t::eof), "skip.state", "skip(%llu) of %zu bytes leaves state %s", (unsigned long long)amount, len, st_name(src.state()));
	mc::transition(); mc::state(mc::hmix(amount, len)); mc::outcome(src.pos); if (amount > 1) mc::nontrivial();
}

MC_HARNESS(read_remainder_sizes)
{
	uint64_t max = mc::choose(4) ? mc::pick(amounts) : SIZE_MAX; size_t len = (size_t)mc::pick(amounts), before = mc::choose(2); bool error = mc::flip();
	mc::job();
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	if (before > len) return;
	short_source src(big(len)); if (error) src.fail_at = len;
	src.pos = before;
	bytes r = src.read_remainder((size_t)max);
	size_t e = (size_t)std::min<uint64_t>(max, len - before);
	MC_CHECK(r == sub(src.data, before, e), "read_remainder.data", "read_remainder(%llu) of %zu bytes returns %zu%s", (unsigned long long)max, len - before, r.size(), r.size() == e ? " wrong ones" : "");
	MC_CHECK(src.pos == before + e, "read_remainder.pos", "read_remainder(%llu) of %zu bytes takes %zu", (unsigned long long)max, len - before, src.pos - before);
	if (len - before < max) MC_CHECK(src.state() == (error ? state_t::fail : state_t::eof), "read_remainder.state", "read_remainder(%llu) of %zu bytes leaves state %s", (unsigned long long)max, len - before, st_name(src.state()));
	else if (max) MC_CHECK(src.ok(), "read_remainder.state", "read_remainder(%llu) of %zu bytes leaves state %s", (unsigned long long)max, len - before, st_name(src.state()));
	mc::transition(); mc::state(mc::hmix(max, len)); mc::outcome(r.size()); if (r.size() > 1) mc::nontrivial();
}
// The same on files, which know their size.
MC_HARNESS(file_read_remainder)
{
	size_t len = mc::choose(6), pos = mc::choose(9), max = mc::choose(8) ? mc::choose(8) : SIZE_MAX; bool mem = mc::flip();
	mc::job();
	bytes all = pattern(len), r, e = sub(all, pos, max); state_t st;
	std::string threw;
	try {
		if (mem) { memory_file f; f.write(all.data(), all.size()); f.seek((foff_t)pos); r = f.read_remainder(max); st = f.state(); }
		else { ref_file f(all); f.pos = pos; r = f.read_remainder(max); st = f.state(); }
	} catch (const std::exception& x) { threw = x.what(); }
	MC_CHECK(threw.empty(), "file_read_remainder.throws", "read_remainder at %zu of %zu bytes throws (%s)", pos, len, threw.c_str());
	MC_CHECK(r == e, "file_read_remainder.data", "read_remainder(%zu) at %zu of %zu bytes returns %s", max, pos, len, show(r).c_str());
	MC_CHECK(st != state_t::fail, "file_read_remainder.state", "read_remainder(%zu) at %zu of %zu bytes fails", max, pos, len);
	mc::transition(); mc::state(mc::hmix(len * 16 + pos, max)); mc::outcome(r.size()); if (r.size()) mc::nontrivial();
}

MC_HARNESS(write_byte_amounts)
{
	uint64_t amount = mc::pick(amounts); bool faults = mc::flip();
	mc::job();
	mc::set_deviation_bound(1);
	short_sink dst(faults);
	dst.write_byte('x', amount);
	MC_CHECK(std::all_of(dst.data.begin(), dst.data.end(), [](uint8_t c) { return c == 'x'; }), "write_byte.data", "write_byte writes something else");
	if (!dst.failed) MC_CHECK(dst.data.size() == amount && dst.ok(), "write_byte.count", "write_byte(%llu) writes %zu, state %s", (unsigned long long)amount, dst.data.size(), st_name(dst.state()));
	else MC_CHECK(dst.data.size() < amount && !dst.ok(), "write_byte.fail", "write_byte(%llu) on a failing stream writes %zu, state %s", (unsigned long long)amount, dst.data.size(), st_name(dst.state()));
	mc::transition(); mc::state(mc::hmix(amount, dst.data.size())); mc::outcome(dst.data.size()); if (amount > 1) mc::nontrivial();
}

MC_HARNESS(write_stream_amounts)
{
	uint64_t amount = mc::choose(4) ? mc::pick(amounts) : fsize_max; size_t len = (size_t)mc::pick(amounts); bool error = mc::flip(), faults = mc::flip();
	mc::job();
	mc::set_deviation_bound(mc::thorough() ? 2 : 1);
	short_source src(big(len)); if (error) src.fail_at = len;
	short_sink dst(faults);
	uint64_t r = dst.write_stream(src, amount), e = std::min<uint64_t>(amount, len);
	MC_CHECK(r == dst.data.size(), "write_stream.count", "write_stream(%llu) of %zu bytes returns %llu, wrote %zu", (unsigned long long)amount, len, (unsigned long long)r, dst.data.size());
	MC_CHECK(dst.data == sub(src.data, 0, (size_t)r), "write_stream.data", "write_stream(%llu) of %zu bytes writes wrong data", (unsigned long long)amount, len);
	MC_CHECK(src.pos <= e, "write_stream.pos", "write_stream(%llu) of %zu bytes takes %zu", (unsigned long long)amount, len, src.pos);
	if (dst.failed) MC_CHECK(r < e && dst.state() == state_t::fail, "write_stream.fail", "write_stream(%llu) of %zu bytes to a failing stream: %llu written, state %s", (unsigned long long)amount, len, (unsigned long long)r, st_name(dst.state()));
	else {
		MC_CHECK(r == e && src.pos == e, "write_stream.short", "write_stream(%llu) of %zu bytes writes %llu", (unsigned long long)amount, len, (unsigned long long)r);
		MC_CHECK(dst.state() == (error && len < amount ? state_t::fail : state_t::ok), "write_stream.state", "write_stream(%llu) of %zu bytes%s leaves state %s", (unsigned long long)amount, len, error ? " and an error" : "", st_name(dst.state()));
	}
	mc::transition(); mc::state(mc::hmix(mc::hmix(amount, len), r)); mc::outcome(r); if (r > 1) mc::nontrivial();
}

// Byte order marks: what write_charset() marks, read_charset() recognises; anything else is left alone.
MC_HARNESS(charset_mark)
{
	static const stdex::charset_id ids[] = { stdex::charset_id::utf8, stdex::charset_id::utf16, stdex::charset_id::utf32, stdex::charset_id::system, stdex::charset_id::windows1250 };
	bool marked = mc::flip();
	stdex::charset_id def = mc::pick(ids), want = def;
	bytes all; size_t body = 0;
	if (marked) {
		stdex::charset_id id = mc::pick(ids);
		short_sink s; s.write_charset(id); all = s.data;
		static const uint8_t b8[] = { 0xEF, 0xBB, 0xBF }, b16[] = { 0xFF, 0xFE }, b32[] = { 0xFF, 0xFE, 0, 0 };
		bytes e;
		if (id == stdex::charset_id::utf8) e.assign(b8, b8 + 3); else if (id == stdex::charset_id::utf16) e.assign(b16, b16 + 2); else if (id == stdex::charset_id::utf32) e.assign(b32, b32 + 4);
		MC_CHECK(all == e, "charset.mark", "mark of charset %d is %s", (int)id, show(all).c_str());
		if (!e.empty()) want = id;
		body = all.size();
		size_t k = mc::choose(4);
		for (size_t i = 0; i < k; i++) all.push_back('a');
		mc::job();
	}
	else {
		static const uint8_t al[] = { 0xEF, 0xBB, 0xBF, 0xFF, 0xFE, 0, 'a' };
		size_t k = mc::choose(6);
		for (size_t i = 0; i < k; i++) all.push_back(mc::pick(al));
		mc::job();
		auto is = [&](std::initializer_list<uint8_t> m) { return all.size() >= m.size() && std::equal(m.begin(), m.end(), all.begin()); };
		if (is({ 0xFF, 0xFE, 0, 0 })) { want = stdex::charset_id::utf32; body = 4; }
		else if (is({ 0xFF, 0xFE })) { want = stdex::charset_id::utf16; body = 2; }
		else if (is({ 0xEF, 0xBB, 0xBF })) { want = stdex::charset_id::utf8; body = 3; }
	}
	ref_file f(all); f.pos = std::min<size_t>(1, all.size());
	stdex::charset_id got = f.read_charset(def);
	MC_CHECK(got == want, "charset.detect", "%s detected as %d, expected %d", show(all).c_str(), (int)got, (int)want);
	MC_CHECK(f.pos == body && f.ok(), "charset.pos", "after detecting the mark of %s the file is at %llu, state %s", show(all).c_str(), (unsigned long long)f.pos, st_name(f.state()));
	MC_CHECK(f.data == all, "charset.data", "detection changes the file");
	mc::transition(); mc::state(mc::hash(all.data(), all.size())); mc::outcome((int)got); if (!all.empty()) mc::nontrivial();
}

// Formatted text goes to the stream whole, however long, or the stream tells it did not.
template <class C> static size_t print(basic& s, const C* f, ...) { va_list p; va_start(p, f); size_t n = s.write_vsprintf(f, NULL, p); va_end(p); return n; }
template <class C> static void formatted(uint64_t width, size_t kind, bool faults)
{
	short_sink dst(faults); std::basic_string<C> f, e, arg; size_t r;
	auto lit = [](const char* t) { return std::basic_string<C>(t, t + strlen(t)); };
	if (kind == 0) { f = lit("%*d|%x"); e = std::basic_string<C>((size_t)(width > 2 ? width - 2 : 0), ' ') + lit("42|ff"); r = print(dst, f.c_str(), (int)width, 42, 255); }
	else if (kind == 1) { arg.assign((size_t)width, 'q'); for (size_t i = 0; i < arg.size(); i += 7) arg[i] = 'a' + (C)(i / 7 % 26); f = sizeof(C) == 1 ? lit("%s!") : lit("%ls!"); e = arg + lit("!"); r = dst.write_sprintf(f.c_str(), NULL, arg.c_str()); }
	else if (kind == 2) { f.assign((size_t)width, 'z'); e = f; r = dst.write_sprintf(f.c_str(), NULL); }
	else { f = lit("%c%c"); e = std::basic_string<C>{ 0, (C)'x' }; r = dst.write_sprintf(f.c_str(), NULL, 0, 'x'); }
	bytes all((const uint8_t*)e.data(), (const uint8_t*)(e.data() + e.size()));
	MC_CHECK(dst.data.size() <= all.size() && std::equal(dst.data.begin(), dst.data.end(), all.begin()), "sprintf.data", "kind %zu of width %llu: %zu bytes were written, %zu were printed, or others", kind, (unsigned long long)width, dst.data.size(), all.size());
	MC_CHECK(r == dst.data.size() / sizeof(C), "sprintf.count", "kind %zu of width %llu: %zu characters were reported, %zu written", kind, (unsigned long long)width, r, dst.data.size() / sizeof(C));
	if (!dst.failed) MC_CHECK(dst.data == all && dst.ok(), "sprintf.short", "kind %zu of width %llu: %zu of %zu bytes", kind, (unsigned long long)width, dst.data.size(), all.size());
	else MC_CHECK(dst.data.size() < all.size() && !dst.ok(), "sprintf.fail", "a failure to write is not reported");
	mc::transition(); mc::state(mc::hmix(mc::hmix(width, kind), dst.data.size() + sizeof(C))); mc::outcome(mc::hmix(dst.data.size(), r)); if (r > 1) mc::nontrivial();
}
MC_HARNESS(formatted_text)
{
	static const uint64_t widths[] = { 0, 1, 2, 3, 10, 127, 128, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 32767, 65534, 65535, 65536, 65537, 70000, 200001, 1000000 };
	uint64_t width = mc::pick(widths); size_t kind = mc::choose(4); bool wide = mc::flip(), faults = mc::flip();
	mc::job(); mc::set_deviation_bound(1);
	if (wide) formatted<wchar_t>(width, kind, faults); else formatted<char>(width, kind, faults);
}
