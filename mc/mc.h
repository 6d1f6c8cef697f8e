// Bounded exhaustive explorer: the harness body is a deterministic function of the answers that
// mc::choose() gives; the explorer runs it once for every possible vector of answers (depth-first).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace mc {
	struct Abandon {}; // thrown to end one execution (harness level only)

	// --- nondeterminism -------------------------------------------------------------------------
	size_t choose(size_t n);              // one of 0..n-1, all of them explored
	size_t choose_dev(size_t n);          // as choose, but answers other than 0 are "deviations" (bounded)
	void set_deviation_bound(size_t k);   // call at the start of the body
	uint64_t prefix_hash();               // of the choices made so far in this execution
	size_t deviations();                  // deviations taken so far in this execution
	template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choose(N)]; }
	template <class T> const T& pick(const std::vector<T>& a) { return a[choose(a.size())]; }
	inline bool flip() { return choose(2) != 0; }
	void job();                           // end of job prefix: the subtree below is one unit of parallel work
	bool job_noskip();                    // as job(), but returns false instead of throwing when not ours

	// --- observation ----------------------------------------------------------------------------
	bool thorough();
	extern bool g_verbose;
	void logv(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_LOG(...) do { if (::mc::g_verbose) ::mc::logv(__VA_ARGS__); } while (0)
	void state(uint64_t h);               // a (model) state was visited
	void transition(uint64_t n = 1);      // operations executed
	void outcome(uint64_t h);             // observed outcome of this execution
	void nontrivial();                    // this execution is non-trivial by the harness' rule
	uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
	inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull) { return hash(s.data(), s.size(), seed); }
	template <class T> uint64_t hmix(uint64_t s, const T& v) { return hash(&v, sizeof v, s); }

	// --- verdicts -------------------------------------------------------------------------------
	// key identifies the failing behaviour (it is what known_findings.json lists). Throws Abandon if the
	// key is a known finding; otherwise the process ends.
	[[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// As fail, for contexts where nothing may be thrown: reported when the execution ends.
	void fail_later(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	bool pending();
#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

	std::string str(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	std::string hex(const void* p, size_t n);
	std::string quote(const void* p, size_t n);

	// --- registration ---------------------------------------------------------------------------
	struct Harness {
		const char* name;
		void (*body)();
		Harness* next;
		Harness(const char* n, void (*b)());
	};
#define MC_HARNESS(name) \
	static void mc_body_##name(); \
	static ::mc::Harness mc_reg_##name(#name, mc_body_##name); \
	static void mc_body_##name()
}
