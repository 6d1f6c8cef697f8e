// Shared pieces of the harnesses: independent reference objects and scripted environments.
#pragma once
#include "mc.h"
#include <stdex/stream.hpp>
#include <algorithm>
#include <functional>
#include <string>
#include <string.h>
#include <vector>

typedef std::vector<uint8_t> bytes;
using stdex::stream::state_t;

inline const char* st_name(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
inline bytes pattern(size_t n, uint8_t from = 'a') { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(from + i % 23); return b; }
inline std::string show(const bytes& b) { return mc::quote(b.data(), b.size()); }
inline std::string show(const std::string& b) { return mc::quote(b.data(), b.size()); }
inline bytes sub(const bytes& b, size_t off, size_t n) { return off >= b.size() ? bytes() : bytes(b.begin() + off, b.begin() + off + std::min(n, b.size() - off)); }

// A forward-only source whose every read may be cut short by the environment, and may end in an error.
struct short_source : public stdex::stream::basic {
	bytes data; size_t pos = 0;
	bool shorts = true;         // environment may deliver fewer bytes than asked for
	size_t fail_at = SIZE_MAX;  // reading at this offset fails (instead of EOF / data)
	size_t reads = 0, nulls = 0;
	short_source(const bytes& d, bool s = true) : data(d), shorts(s) {}
	size_t read(void* p, size_t n) override
	{
		++reads;
		if (!n) { ++nulls; m_state = state_t::ok; return 0; }
		if (pos >= fail_at) { m_state = state_t::fail; return 0; }
		size_t avail = std::min(data.size(), fail_at) - pos;
		if (!avail) { m_state = fail_at <= data.size() ? state_t::fail : state_t::eof; return 0; }
		size_t m = std::min(n, avail);
		if (shorts && m > 1) {
			// full, one byte, all but one
			size_t c = mc::choose_dev(m > 2 ? 3 : 2);
			if (c == 1) m = 1; else if (c == 2) m = m - 1;
		}
		memcpy(p, data.data() + pos, m);
		pos += m;
		m_state = state_t::ok;
		return m;
	}
};

// A forward-only sink whose writes may be cut short (with failure) by the environment.
struct short_sink : public stdex::stream::basic {
	bytes data; bool faults = false; size_t writes = 0, nulls = 0, flushes = 0, closes = 0; bool failed = false;
	bool sticky = true; state_t bad = state_t::fail; // what a failed write is reported as
	bool control_faults = false; size_t refusals = 0; // flush() and close() may fail once in a while, too
	short_sink(bool f = false) : faults(f) {}
	size_t write(const void* p, size_t n) override
	{
		++writes;
		if (!n) { ++nulls; m_state = failed && sticky ? bad : state_t::ok; return 0; }
		if (failed && sticky) { m_state = bad; return 0; }
		size_t m = n;
		if (faults) {
			size_t c = mc::choose_dev(n > 1 ? 3 : 2); // all, nothing, part
			if (c) { failed = true; m = c == 1 ? 0 : n / 2; }
			m_state = c ? bad : state_t::ok;
		}
		else m_state = state_t::ok;
		data.insert(data.end(), (const uint8_t*)p, (const uint8_t*)p + m);
		return m;
	}
	void control() { bool no = control_faults && mc::choose_dev(2); refusals += no; m_state = no || (failed && sticky) ? state_t::fail : state_t::ok; }
	void flush() override { ++flushes; control(); }
	void close() override { ++closes; control(); }
};

// Plain reference file: a byte vector and a position (POSIX semantics: holes read as zero).
struct ref_file : public stdex::stream::basic_file {
	bytes data; uint64_t pos = 0;
	size_t flushes = 0, closes = 0;
	// fault injection: asked before every operation; 0 = no fault
	std::function<size_t(char op, uint64_t pos, size_t n)> fault;
	explicit ref_file(const bytes& d = bytes()) : data(d) {}
	size_t read(void* p, size_t n) override
	{
		if (!n) { m_state = state_t::ok; return 0; }
		size_t f = fault ? fault('r', pos, n) : 0;
		if (f == 1) { m_state = state_t::fail; return 0; }
		if (pos >= data.size()) { m_state = state_t::eof; return 0; }
		size_t m = (size_t)std::min<uint64_t>(n, data.size() - pos);
		if (f == 2 && m > 1) m = 1;
		memcpy(p, data.data() + pos, m); pos += m;
		m_state = state_t::ok;
		return m;
	}
	size_t write(const void* p, size_t n) override
	{
		size_t f = fault ? fault('w', pos, n) : 0;
		if (f == 1) { m_state = state_t::fail; return 0; }
		size_t m = n;
		if (f == 2 && n > 1) m = 1;
		if (m) {
			if (data.size() < pos + m) data.resize(pos + m);
			memcpy(data.data() + pos, p, m);
			pos += m;
		}
		m_state = m < n ? state_t::fail : state_t::ok;
		return m;
	}
	void flush() override { ++flushes; m_state = fault && fault('f', pos, 0) ? state_t::fail : state_t::ok; }
	void close() override { ++closes; m_state = state_t::ok; }
	stdex::stream::fpos_t seek(stdex::stream::foff_t off, stdex::stream::seek_t how) override
	{
		if (fault && fault('s', pos, 0)) { m_state = state_t::fail; return stdex::stream::fpos_max; }
		int64_t base = how == stdex::stream::seek_t::beg ? 0 : how == stdex::stream::seek_t::cur ? (int64_t)pos : (int64_t)data.size();
		if (base + off < 0) { m_state = state_t::fail; return stdex::stream::fpos_max; }
		m_state = state_t::ok;
		return pos = (uint64_t)(base + off);
	}
	stdex::stream::fpos_t tell() const override { return pos; }
	stdex::stream::fsize_t size() const override { return data.size(); }
	void truncate() override
	{
		if (fault && fault('t', pos, 0)) { m_state = state_t::fail; return; }
		data.resize(pos); m_state = state_t::ok;
	}
};

// Reference semantics of a random-access file used as an oracle.
struct model_file {
	bytes data; uint64_t pos = 0;
	bytes read(size_t n) { bytes r = sub(data, (size_t)std::min<uint64_t>(pos, SIZE_MAX), n); pos += r.size(); return r; }
	void write(const void* p, size_t n) { if (!n) return; if (data.size() < pos + n) data.resize(pos + n); memcpy(data.data() + pos, p, n); pos += n; }
	void write(const bytes& b) { write(b.data(), b.size()); }
	uint64_t h() const { return mc::hmix(mc::hash(data.data(), data.size()), pos); }
};
