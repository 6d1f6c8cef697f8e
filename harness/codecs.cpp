// Base64 and hexadecimal codecs against independent references: every block value, every way to cut the data up.
#include "common.h"
#include <stdex/base64.hpp>
#include <stdex/hex.hpp>
using namespace stdex::stream;

static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const uint8_t* d, size_t n)
{
	std::string s;
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)d[i] << 16 | (i + 1 < n ? (uint32_t)d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
		s += abc[v >> 18]; s += abc[v >> 12 & 63]; s += i + 1 < n ? abc[v >> 6 & 63] : '='; s += i + 2 < n ? abc[v & 63] : '=';
	}
	return s;
}
// Decodes up to and including the first padded block; foreign characters are skipped. complete: no block is left open.
static bytes ref_unb64(const std::string& s, bool& padded, bool& complete)
{
	bytes out; uint32_t v[4]; size_t n = 0; padded = false;
	for (unsigned char c : s) {
		const char* p = c ? strchr(abc, c) : nullptr;
		if (c == '=') v[n++] = 64; else if (p) v[n++] = (uint32_t)(p - abc); else continue;
		if (n < 4) continue;
		n = 0;
		out.push_back((uint8_t)(v[0] << 2 | v[1] >> 4));
		if (v[2] >= 64) { padded = true; break; }
		out.push_back((uint8_t)(v[1] << 4 | v[2] >> 2));
		if (v[3] >= 64) { padded = true; break; }
		out.push_back((uint8_t)(v[2] << 6 | v[3]));
	}
	complete = !n;
	return out;
}
static std::vector<size_t> cuts(size_t n) { std::vector<size_t> c; while (n) { size_t k = 1 + mc::choose(n); c.push_back(k); n -= k; } return c; }

MC_HARNESS(base64_blocks)
{
	size_t a = mc::choose(256);
	mc::job();
	stdex::base64_enc e; stdex::base64_dec d; std::string s; std::vector<uint8_t> o; bool last;
	auto one = [&](const uint8_t* b, size_t n) {
		s.clear(); e.encode(s, b, n);
		MC_CHECK(s == ref_b64(b, n), "base64.block", "%s encodes as %s", mc::hex(b, n).c_str(), s.c_str());
		o.clear(); d.decode(o, last, s.data(), s.size());
		MC_CHECK(o.size() == n && !memcmp(o.data(), b, n) && last == (n < 3), "base64.block.back", "%s decodes as %s, %slast", s.c_str(), mc::hex(o.data(), o.size()).c_str(), last ? "" : "not ");
		d.clear();
	};
	uint8_t b[3] = { (uint8_t)a };
	one(b, 1);
	for (size_t x = 0; x < 256; x++) { b[1] = (uint8_t)x; one(b, 2); for (size_t y = 0; y < 256; y++) { b[2] = (uint8_t)y; one(b, 3); } }
	mc::transition(65536); mc::state(a); mc::outcome(a); mc::nontrivial();
}

template <class T> static void enc_case(size_t max)
{
	static const uint8_t al[] = { 0, 0xFF, 'k' };
	size_t n = mc::choose(max + 1); bytes b;
	for (size_t i = 0; i < n; i++) b.push_back(i < 5 ? mc::pick(al) : (uint8_t)(0x9D + 57 * i));
	mc::job();
	stdex::base64_enc e; std::basic_string<T> s(1, (T)'>'); std::string r = ">";
	auto c = cuts(n); size_t at = 0;
	bool explicit_last = mc::flip();
	for (size_t i = 0; i < c.size(); i++) {
		size_t bound = s.size() + e.enc_size(c[i]);
		bool last = !explicit_last && i + 1 == c.size();
		e.encode(s, b.data() + at, c[i], last); at += c[i];
		MC_CHECK(s.size() <= bound, "base64.enc_size", "%zu characters where at most %zu were announced", s.size(), bound);
	}
	if (explicit_last || c.empty()) e.encode(s, nullptr, 0, true);
	r += ref_b64(b.data(), n);
	MC_CHECK(std::basic_string<T>(r.begin(), r.end()) == s, "base64.enc", "%s in %zu pieces encodes differently from %s", show(b).c_str(), c.size(), r.c_str());
	// A session goes on with the next message.
	size_t before = s.size(); e.encode(s, "xyz", 3); r = ref_b64((const uint8_t*)"xyz", 3);
	MC_CHECK(s.substr(before) == std::basic_string<T>(r.begin(), r.end()), "base64.enc.again", "a session carries data over to the next message");
	e.encode(s, "q", 1, false); e.clear(); before = s.size(); e.encode(s, "xyz", 3);
	MC_CHECK(s.substr(before) == std::basic_string<T>(r.begin(), r.end()), "base64.enc.clear", "clear() leaves data behind");
	mc::transition(c.size()); mc::state(mc::hash(b.data(), n)); mc::outcome(mc::hash(b.data(), n)); if (c.size() > 1) mc::nontrivial();
}
MC_HARNESS(base64_encode) { enc_case<char>(mc::thorough() ? 10 : 8); }
MC_HARNESS(base64_encode_wide) { enc_case<wchar_t>(mc::thorough() ? 9 : 6); }

template <class T> static void dec_case(size_t max)
{
	static const unsigned al[] = { 'A', '/', 'r', '=', '\n', 0xC3 };
	size_t n = mc::choose(max + 1); std::string s;
	for (size_t i = 0; i < n; i++) s += (char)mc::pick(al);
	mc::job();
	std::basic_string<T> t; { static const unsigned odd[] = { 0x141, 0x100, 0x80000041, 0x13D, 0x4141 }; size_t i = 0; for (char c : s) { t += sizeof(T) > 1 && c == '\n' ? (T)odd[i % 5] : (T)c; i++; } } // wide characters whose low byte is a letter, '=' or zero
	stdex::base64_dec d; std::vector<uint8_t> o(1, '>'); bool last = false, padded, complete;
	bytes r = ref_unb64(s, padded, complete); r.insert(r.begin(), '>');
	size_t at = 0, pieces = 0;
	size_t cut = mc::choose(n + 1), cut2 = n > cut ? cut + mc::choose(n - cut + 1) : cut;
	size_t ends[3] = { cut, cut2, n };
	for (size_t e : ends) {
		if (e == at && (at || n)) continue;
		std::vector<T> piece(t.begin() + at, t.begin() + e); // exactly sized: reading past it is seen
		size_t bound = o.size() + d.dec_size(e - at);
		d.decode(o, last, piece.data(), piece.size()); at = e; pieces++;
		MC_CHECK(o.size() <= bound, "base64.dec_size", "%zu bytes where at most %zu were announced", o.size(), bound);
		if (last) break;
	}
	MC_CHECK(o == r, "base64.dec", "%s in %zu pieces decodes as %s, expected %s", show(s).c_str(), pieces, show(o).c_str(), show(r).c_str());
	MC_CHECK(last == padded, "base64.dec.last", "%s: last is %d", show(s).c_str(), (int)last);
	mc::outcome(mc::hash(o.data(), o.size(), padded));
	if (!complete) d.clear();
	o.clear(); T q[] = { 'Q', 'U', 'J', 'D', 0, 'Q', 'U', 'J', 'D' };
	d.decode(o, last, q, 9);
	MC_CHECK(show(o) == "\"ABC\"" && !last, "base64.dec.again", "a session goes on with %s", show(o).c_str());
	mc::transition(pieces); mc::state(mc::hash(s)); if (r.size() > 1) mc::nontrivial();
}
MC_HARNESS(base64_decode) { dec_case<char>(mc::thorough() ? 8 : 6); }
MC_HARNESS(base64_decode_wide) { dec_case<wchar_t>(mc::thorough() ? 7 : 6); }

MC_HARNESS(base64_writer_pieces)
{
	static const size_t mbs[] = { 1, 2, 3, 19, SIZE_MAX };
	size_t mb = mc::pick(mbs), n = mc::choose(mc::thorough() ? 14 : 12); bool faults = mc::flip();
	mc::job();
	mc::set_deviation_bound(1);
	bytes b = pattern(n, 0xF0);
	auto c = faults ? std::vector<size_t>() : cuts(n);
	if (faults) { size_t k = 1 + mc::choose(5); for (size_t i = 0; i < n; i += k) c.push_back(std::min(k, n - i)); }
	short_sink dst; bool reported = false;
	std::string r = ref_b64(b.data(), n), lined;
	for (size_t i = 0; i < r.size(); i += 4) { if (i && mb != SIZE_MAX && i / 4 % mb == 0) lined += '\n'; lined += r.substr(i, 4); }
	{
		stdex::base64_writer w(dst, mb); dst.faults = faults;
		size_t at = 0;
		for (size_t k : c) {
			size_t x = w.write(b.data() + at, k);
			MC_LOG("write(%zu) -> %zu %s", k, x, st_name(w.state()));
			MC_CHECK(x <= k && w.ok() == (x == k), "base64.write", "write(%zu) returns %zu, state %s", k, x, st_name(w.state()));
			MC_CHECK(w.ok() == !dst.failed, "base64.write.state", "state is %s and the sink has %sfailed", st_name(w.state()), dst.failed ? "" : "not ");
			if (!w.ok()) { reported = true; break; }
			at += k;
		}
		dst.faults = false;
	}
	std::string got(dst.data.begin(), dst.data.end());
	if (!reported) MC_CHECK(got == lined, "base64.writer", "%zu bytes with %zu blocks a line give %s, expected %s", n, mb, show(got).c_str(), show(lined).c_str());
	else MC_CHECK(got == lined.substr(0, got.size()), "base64.writer.fault", "up to the failure the sink got %s of %s", show(got).c_str(), show(lined).c_str());
	mc::transition(c.size()); mc::state(mc::hash(got)); mc::outcome(mc::hash(got)); if (c.size() > 1) mc::nontrivial();
}

MC_HARNESS(base64_reader_pieces)
{
	size_t n = mc::choose(mc::thorough() ? 11 : 9), seps = mc::choose(4); bool error = mc::flip(), shorts = mc::flip();
	size_t cutoff = error ? mc::choose(13) : SIZE_MAX;
	mc::job();
	mc::set_deviation_bound(1);
	bytes b = pattern(n, 0xF0); std::string s = ref_b64(b.data(), n), t;
	for (size_t i = 0; i < s.size(); i++) { t += s[i]; if (seps == 1 && i % 4 == 3) t += '\n'; else if (seps == 2) t += "\r\n"; else if (seps == 3 && i % 3 == 1) t += '-'; }
	short_source src(bytes(t.begin(), t.end()), shorts);
	bytes avail = b;
	if (error) { src.fail_at = std::min(cutoff, t.size()); bool p, c; avail = ref_unb64(t.substr(0, src.fail_at), p, c); }
	stdex::base64_reader r(src);
	bytes got; static const size_t sz[] = { 1, 2, 3, 4, 7, 0 };
	for (size_t i = 0;; i++) {
		MC_CHECK(i < 40, "base64.read.end", "no end");
		size_t k = i < 4 ? mc::pick(sz) : 3; uint8_t buf[8]; memset(buf, '#', sizeof buf);
		size_t x = r.read(buf, k);
		MC_LOG("read(%zu) -> %zu %s", k, x, st_name(r.state()));
		MC_CHECK(x <= k, "base64.read", "read(%zu) returns %zu", k, x);
		got.insert(got.end(), buf, buf + x);
		MC_CHECK(got == sub(avail, 0, got.size()), "base64.read.data", "what was read of %s is %s, expected %s", show(t).c_str(), show(got).c_str(), show(avail).c_str());
		for (size_t j = k; j < sizeof buf; j++) MC_CHECK(buf[j] == '#', "base64.read.overrun", "read(%zu) wrote byte %zu", k, j);
		mc::transition(); mc::state(mc::hmix(mc::hash(t), got.size()));
		if (x || !k) { MC_CHECK(r.ok(), "base64.read.state", "read(%zu) of %zu bytes leaves state %s", k, x, st_name(r.state())); continue; }
		MC_CHECK(got.size() == avail.size(), "base64.read.lost", "of %s only %s was read", show(t).c_str(), show(got).c_str());
		MC_CHECK(r.state() == (error ? state_t::fail : state_t::eof), "base64.read.state", "the end leaves state %s", st_name(r.state()));
		break;
	}
	mc::outcome(mc::hash(t) + got.size()); if (n) mc::nontrivial();
}

// --- hexadecimal
MC_HARNESS(hex_pieces)
{
	static const uint8_t al[] = { 0, 0x9A, 0xF0, 0x0F };
	size_t n = mc::choose(mc::thorough() ? 7 : 6); bytes b;
	for (size_t i = 0; i < n; i++) b.push_back(mc::pick(al));
	mc::job();
	stdex::hex_enc e; std::string s, r; std::wstring w; size_t at = 0;
	for (uint8_t c : b) r += mc::str("%02X", c);
	for (size_t k : cuts(n)) { size_t bound = s.size() + e.enc_size(k); e.encode(s, b.data() + at, k); e.encode(w, b.data() + at, k); at += k; MC_CHECK(s.size() == bound, "hex.enc_size", "%zu characters where %zu were announced", s.size(), bound); }
	MC_CHECK(s == r && w == std::wstring(r.begin(), r.end()), "hex.enc", "%s encodes as %s", r.c_str(), s.c_str());
	stdex::hex_dec d; std::vector<uint8_t> o; bool last = true; at = 0;
	size_t c1 = mc::choose(s.size() + 1);
	{ std::vector<char> p(s.begin(), s.begin() + c1); d.decode(o, last, p.data(), p.size()); if (c1) MC_CHECK(last == !(c1 % 2), "hex.dec.last", "%zu digits decode as %scomplete", c1, last ? "" : "in"); }
	{ std::vector<char> p(s.begin() + c1, s.end()); d.decode(o, last, p.data(), p.size()); }
	MC_CHECK(o == b, "hex.dec", "%s decodes as %s", s.c_str(), mc::hex(o.data(), o.size()).c_str());
	mc::transition(2); mc::state(mc::hash(r)); mc::outcome(mc::hash(r)); if (n > 1) mc::nontrivial();
}
MC_HARNESS(hex_decode)
{
	static const char al[] = { '0', '9', 'A', 'F', 'a', 'f', 'G', '/', ':', '@', '`', ' ', '\xC1' };
	size_t n = mc::choose(mc::thorough() ? 6 : 5); std::string s;
	for (size_t i = 0; i < n; i++) s += mc::pick(al);
	mc::job();
	bytes r; int h = -1;
	for (char c : s) { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (v < 0) continue; if (h < 0) h = v; else { r.push_back((uint8_t)(h << 4 | v)); h = -1; } }
	std::wstring t; for (char c : s) t += c == ' ' ? (wchar_t)0x130 : c == 'G' ? (wchar_t)0x141 : c == '`' ? (wchar_t)0x161 : c == ':' ? (wchar_t)0x100 : c == '/' ? (wchar_t)0x80000039 : (wchar_t)(unsigned char)c;
	size_t cut = mc::choose(n + 1); bool last;
	std::vector<uint8_t> o, ow; stdex::hex_dec d, dw;
	{ std::vector<char> p(s.begin(), s.begin() + cut), q(s.begin() + cut, s.end()); d.decode(o, last, p.data(), p.size()); d.decode(o, last, q.data(), q.size()); }
	{ std::vector<wchar_t> p(t.begin(), t.begin() + cut), q(t.begin() + cut, t.end()); dw.decode(ow, last, p.data(), p.size()); dw.decode(ow, last, q.data(), q.size()); }
	MC_CHECK(o == r && ow == r, "hex.dec", "%s decodes as %s, wide %s, expected %s", show(s).c_str(), mc::hex(o.data(), o.size()).c_str(), mc::hex(ow.data(), ow.size()).c_str(), mc::hex(r.data(), r.size()).c_str());
	mc::outcome(mc::hash(o.data(), o.size()));
	o.clear(); d.clear(); d.decode(o, last, "4\0", 2); MC_CHECK(o.empty() && !last, "hex.dec.last", "half a byte decodes"); d.decode(o, last, "Zq2", 3); MC_CHECK(show(o) == "\"B\"" && last, "hex.dec.again", "4|2 decodes as %s", show(o).c_str());
	mc::transition(2); mc::state(mc::hash(s)); if (r.size()) mc::nontrivial();
}

// Texts longer than a narrow count, in one piece and in pieces, on lines of any length.
static const size_t long_sizes[] = { 190, 191, 192, 254, 255, 256, 257, 765, 768, 769, 1023, 1024, 1025, 4096, 32767, 49151, 49152, 49153, 65534, 65535, 65536, 65537, 70000, 131073, 200001 };
template <class T> static void long_text(size_t n, size_t piece, bool hex)
{
	bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) * 13 + (i >> 16));
	std::string r; if (hex) { static const char d[] = "0123456789ABCDEF"; for (uint8_t x : b) { r += d[x >> 4]; r += d[x & 15]; } } else r = ref_b64(b.data(), n);
	std::basic_string<T> e(r.begin(), r.end()), s; 
	if (hex) { stdex::hex_enc x; for (size_t i = 0; i < n; i += piece) { size_t k = std::min(piece, n - i), bound = s.size() + x.enc_size(k); x.encode(s, b.data() + i, k); MC_CHECK(s.size() == bound, "long.enc_size", "%zu characters where %zu were announced", s.size(), bound); } }
	else { stdex::base64_enc x; for (size_t i = 0; i < n; i += piece) { size_t k = std::min(piece, n - i), bound = s.size() + x.enc_size(k); x.encode(s, b.data() + i, k, i + k == n); MC_CHECK(s.size() <= bound, "long.enc_size", "%zu characters where at most %zu were announced", s.size(), bound); } }
	MC_CHECK(s == e, "long.enc", "%zu bytes in pieces of %zu encode wrong", n, piece);
	std::vector<uint8_t> o; bool last = false;
	if (hex) { stdex::hex_dec x; for (size_t i = 0; i < s.size(); i += piece) { size_t k = std::min(piece, s.size() - i), bound = o.size() + x.dec_size(k) + 1; x.decode(o, last, s.data() + i, k); MC_CHECK(o.size() <= bound && o.capacity(), "long.dec_size", "%zu bytes", o.size()); } MC_CHECK(last, "long.dec.last", "the end is not announced"); }
	else { stdex::base64_dec x; for (size_t i = 0; i < s.size(); i += piece) { size_t k = std::min(piece, s.size() - i), bound = o.size() + x.dec_size(k); x.decode(o, last, s.data() + i, k); MC_CHECK(o.size() <= bound, "long.dec_size", "%zu bytes where at most %zu were announced", o.size(), bound); } MC_CHECK(last == (n % 3 != 0), "long.dec.last", "the end is %sannounced", last ? "" : "not "); }
	MC_CHECK(o.size() == n && !memcmp(o.data(), b.data(), n), "long.dec", "%zu bytes in pieces of %zu decode as %zu bytes, or others", n, piece, o.size());
	// What follows a terminator is not part of the text.
	std::basic_string<T> z = s; z += (T)0; z.append(8, (T)'4'); o.clear();
	if (hex) { stdex::hex_dec x; x.decode(o, last, z.data(), z.size()); } else { stdex::base64_dec x; x.decode(o, last, z.data(), z.size()); }
	MC_CHECK(o.size() == n && !memcmp(o.data(), b.data(), n), "long.dec.terminator", "%zu bytes of a terminated text decode as %zu bytes, or others", n, o.size());
	mc::transition(3);
}
MC_HARNESS(long_texts)
{
	size_t n = mc::pick(long_sizes), what = mc::choose(4); static const size_t pieces[] = { SIZE_MAX, 65536, 1000, 257 }; size_t piece = mc::pick(pieces);
	mc::job(); piece = std::min(piece, 4 * n + 4);
	if (what & 1) long_text<wchar_t>(n, piece, what & 2); else long_text<char>(n, piece, what & 2);
	mc::state(mc::hmix(n * 4 + what, piece)); mc::outcome(mc::hmix(n * 4 + what, piece)); mc::nontrivial();
}
MC_HARNESS(long_lines)
{
	static const size_t mbs[] = { 1, 19, 127, 128, 254, 255, 256, 257, 1000, 16383, 16384, 32768, 65535, 65536, 65537, SIZE_MAX }, pieces[] = { SIZE_MAX, 65536, 100 };
	size_t n = mc::pick(long_sizes), mb = mc::pick(mbs), piece = mc::pick(pieces);
	mc::job(); piece = std::min(piece, n);
	bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 11 + (i >> 8) * 3 + (i >> 16));
	std::string r = ref_b64(b.data(), n), lined; for (size_t i = 0; i < r.size(); i += 4) { if (i && mb != SIZE_MAX && i / 4 % mb == 0) lined += '\n'; lined += r.substr(i, 4); }
	short_sink dst; { stdex::base64_writer w(dst, mb); for (size_t i = 0; i < n; i += piece) { size_t k = std::min(piece, n - i), x = w.write(b.data() + i, k); MC_CHECK(x == k && w.ok(), "long.write", "write(%zu) returns %zu", k, x); } }
	MC_CHECK(std::string(dst.data.begin(), dst.data.end()) == lined, "long.writer", "%zu bytes with %zu blocks a line are written wrong", n, mb);
	ref_file f(dst.data); stdex::base64_reader q(f); bytes got(n + 10); size_t at = 0;
	for (;;) { size_t k = std::min(piece, n + 10 - at), x = q.read(got.data() + at, k); MC_CHECK(x <= k, "long.read", "read(%zu) returns %zu", k, x); at += x; mc::transition(); if (!x || at > n) break; }
	MC_CHECK(at == n && !memcmp(got.data(), b.data(), n) && q.state() == state_t::eof, "long.reader", "%zu bytes with %zu blocks a line are read as %zu, state %s", n, mb, at, st_name(q.state()));
	mc::state(mc::hmix(mc::hmix(n, mb), piece)); mc::outcome(mc::hmix(mc::hmix(n, mb), piece)); mc::nontrivial();
}
