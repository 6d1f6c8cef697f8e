#include "mc.h"
#include <atomic>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {
	bool g_verbose = false;
	void (*g_abandon)() = nullptr;          // the scheduler's way to give up an execution from inside a fiber
	bool g_warm = false;                    // a warm-up run: nothing is chosen or recorded
	int g_internal = 0;                     // inside the explorer: its allocations are not the code's
	struct Internal { Internal() { ++g_internal; } ~Internal() { --g_internal; } };
	static bool g_thorough = false;
	static Harness* g_first = nullptr;
	Harness::Harness(const char* n, void (*b)()) : name(n), body(b), next(nullptr)
	{
		Harness** p = &g_first;
		while (*p) p = &(*p)->next;
		*p = this;
	}

	static const size_t MAXC = 4096, MAXJOBS = 1 << 20, MAXW = 64, MAXKNOWN = 64;

	struct Slot {                       // one worker's shared-memory record
		std::atomic<uint64_t> beat;
		uint64_t execs, transitions, nontriv, jobs, skipped_deep;
		uint32_t running;               // inside an execution
		uint32_t nchoices;
		uint16_t choice[MAXC], width[MAXC];
		uint32_t status;                // 0 running, 1 finished, 2 violation
		char key[512], msg[4096];
		uint32_t known_count[MAXKNOWN];
		uint32_t nsamples;
		struct { uint32_t n; uint16_t c[512]; } sample[3];
		uint64_t max_depth;
	};
	struct Shared {
		std::atomic<uint8_t> claimed[MAXJOBS]; // 1 + the worker that took the job
		std::atomic<uint32_t> stop;     // time cap reached
		Slot slot[MAXW];
	};
	static Shared* g_sh;
	static Slot* g_me;
	static std::vector<std::string> g_known;

	// Exploration state of this process.
	static std::vector<uint16_t> c_choice, c_width;
	static size_t c_pos;
	static bool c_replay_only;
	static size_t c_dev, c_devbound;
	static std::vector<uint16_t> c_jobprefix;
	static bool c_havejob, c_jobmine, c_jobcalled;
	static uint64_t c_jobord;
	static bool c_pending; static std::string c_pkey, c_pmsg;
	static bool c_skip;
	static bool c_nontriv;
	static std::unordered_set<uint64_t> c_states, c_outcomes;
	static const size_t CAP = 6000000;
	static int g_verbose_fd = 1;
	static int c_history_of = -1;           // re-running exactly the jobs that worker took, in its order
	static size_t c_worker;

	static void internal_error(const char* m)
	{
		fprintf(stderr, "mc: internal error: %s\n", m);
		fflush(stderr);
		_exit(99);
	}

	static bool report(const std::string& key, const std::string& msg);
	size_t choose(size_t n)
	{
		if (g_warm) return 0;
		Internal in;
		if (n == 0) internal_error("choose(0)");
		if (c_pos >= MAXC) { // on no tree where executions end
			report("endless", mc::str("the execution does not end: more than %zu choices", MAXC));
			internal_error("too many choices in one execution");
		}
		if (c_pos < c_choice.size()) {
			if (c_width[c_pos] == 0) c_width[c_pos] = (uint16_t)n;   // replay vector: width learnt now
			if (c_width[c_pos] != n || c_choice[c_pos] >= n) {
				// The prefix does not replay: nondeterminism the harness does not own.
				fprintf(stderr, "mc: divergence while replaying at %zu: width %u, now %zu\n", c_pos, c_width[c_pos], n);
				_exit(98);
			}
		}
		else {
			c_choice.push_back(0);
			c_width.push_back((uint16_t)n);
			if (g_me && c_pos < MAXC) { g_me->choice[c_pos] = 0; g_me->width[c_pos] = (uint16_t)n; g_me->nchoices = (uint32_t)c_choice.size(); }
		}
		if (g_me) g_me->beat.fetch_add(1, std::memory_order_relaxed);
		return c_choice[c_pos++];
	}

	size_t choose_dev(size_t n)
	{
		if (n <= 1 || c_dev >= c_devbound) return 0;
		size_t r = choose(n);
		if (r) ++c_dev;
		return r;
	}

	void set_deviation_bound(size_t k) { c_devbound = k; }
	size_t deviations() { return c_dev; }
	uint64_t prefix_hash() { return hash(c_choice.data(), c_pos * sizeof c_choice[0]); }

	bool job_noskip()
	{
		Internal in;
		if (c_replay_only) return true;
		if (c_jobcalled) internal_error("job() called twice");
		c_jobcalled = true;
		std::vector<uint16_t> prefix(c_choice.begin(), c_choice.begin() + c_pos);
		if (!c_havejob || prefix != c_jobprefix) {
			if (c_havejob) ++c_jobord;
			c_havejob = true;
			c_jobprefix = prefix;
			if (c_jobord >= MAXJOBS) internal_error("too many jobs");
			if (c_history_of >= 0) c_jobmine = g_sh->claimed[c_jobord].load() == 1 + c_history_of;
			else { uint8_t none = 0; c_jobmine = g_sh->claimed[c_jobord].compare_exchange_strong(none, (uint8_t)(1 + c_worker)); }
			if (c_jobmine) g_me->jobs++;
		}
		if (!c_jobmine) c_skip = true;
		return c_jobmine;
	}
	void job()
	{
		if (!job_noskip()) throw Abandon();
	}

	bool thorough() { return g_thorough; }

	void logv(const char* fmt, ...)
	{
		if (g_warm) return;
		Internal in;
		char buf[4096];
		va_list ap; va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
		va_end(ap);
		if (n < 0) return;
		if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
		buf[n++] = '\n';
		if (write(g_verbose_fd, buf, (size_t)n) < 0) {}
	}

	void state(uint64_t h) { if (g_warm) return; Internal in; if (c_states.size() < CAP) c_states.insert(h); }
	void outcome(uint64_t h) { if (g_warm) return; Internal in; if (c_outcomes.size() < CAP) c_outcomes.insert(h); }
	void transition(uint64_t n) { if (g_me) { g_me->transitions += n; g_me->beat.fetch_add(1, std::memory_order_relaxed); } }
	void nontrivial() { if (g_warm) return; c_nontriv = true; }
	uint64_t hash(const void* p, size_t n, uint64_t h)
	{
		const uint8_t* b = (const uint8_t*)p;
		for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
		h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
		return h;
	}

	std::string str(const char* fmt, ...)
	{
		char buf[8192];
		va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		return buf;
	}
	std::string hex(const void* p, size_t n)
	{
		std::string s; char b[4];
		for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]); s += b; }
		return s;
	}
	std::string quote(const void* p, size_t n)
	{
		std::string s = "\""; char b[8];
		for (size_t i = 0; i < n; i++) {
			uint8_t c = ((const uint8_t*)p)[i];
			if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') s += (char)c;
			else { snprintf(b, sizeof b, "\\x%02x", c); s += b; }
		}
		return s + "\"";
	}

	static int known_index(const std::string& key)
	{
		for (size_t i = 0; i < g_known.size(); i++) if (g_known[i] == key) return (int)i;
		return -1;
	}

	static bool report(const std::string& key, const std::string& msg) // true: known finding, go on
	{
		int k = known_index(key);
		if (k >= 0) {
			MC_LOG("known finding %s: %s", key.c_str(), msg.c_str());
			if (g_me) g_me->known_count[k]++;
			return true;
		}
		if (g_me) {
			snprintf(g_me->key, sizeof g_me->key, "%s", key.c_str());
			snprintf(g_me->msg, sizeof g_me->msg, "%s", msg.c_str());
			g_me->nchoices = (uint32_t)std::min(c_pos, MAXC);
			for (size_t i = 0; i < g_me->nchoices; i++) { g_me->choice[i] = c_choice[i]; g_me->width[i] = c_width[i]; }
			g_me->status = 2;
		}
		MC_LOG("FAIL %s: %s", key.c_str(), msg.c_str());
		fflush(stdout); fflush(stderr);
		_exit(42);
	}

	void fail(const std::string& key, const char* fmt, ...)
	{
		char buf[4096];
		va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		{ Internal in; report(key, buf); }
		if (g_abandon) g_abandon();
		throw Abandon();
	}
	void fail_later(const std::string& key, const char* fmt, ...)
	{
		if (c_pending) return;
		Internal in;
		char buf[4096];
		va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		c_pending = true; c_pkey = key; c_pmsg = buf;
		MC_LOG("violation noted: %s: %s", key.c_str(), buf);
	}
	bool pending() { return c_pending; }

	static void run_once(void (*body)())
	{
		c_pos = 0; c_dev = 0; c_devbound = 0; c_pending = false; c_skip = false; c_jobcalled = false; c_nontriv = false;
		if (g_me) {
			g_me->nchoices = (uint32_t)c_choice.size();
			for (size_t i = 0; i < c_choice.size(); i++) { g_me->choice[i] = c_choice[i]; g_me->width[i] = c_width[i]; }
			g_me->running = 1;
			g_me->beat.fetch_add(1, std::memory_order_relaxed);
		}
		try { body(); }
		catch (Abandon&) {}
		if (c_pending) report(c_pkey, c_pmsg);
		if (g_me) g_me->running = 0;
	}

	static bool advance() // odometer; false when exhausted
	{
		c_choice.resize(c_pos); c_width.resize(c_pos);
		while (!c_choice.empty()) {
			if (c_choice.back() + 1u < c_width.back()) { ++c_choice.back(); return true; }
			c_choice.pop_back(); c_width.pop_back();
		}
		return false;
	}

	static void worker(Harness* h, size_t w, const std::string& tmp, bool resume)
	{
		if (!resume) g_me = &g_sh->slot[w];
		c_worker = w;
		c_choice.clear(); c_width.clear(); c_havejob = false; c_jobord = 0;
		for (;;) {
			run_once(h->body);
			if (!c_jobcalled && !c_skip && w != 0) break; // harness without jobs: worker 0 does it all
			if (!c_skip) {
				g_me->execs++;
				if (c_nontriv) g_me->nontriv++;
				if (c_pos > g_me->max_depth) g_me->max_depth = c_pos;
				uint64_t e = g_me->execs;
				if ((e == 1 || e == 100 || e == 5000) && g_me->nsamples < 3 && c_pos <= 512) {
					auto& s = g_me->sample[g_me->nsamples++];
					s.n = (uint32_t)c_pos;
					for (size_t i = 0; i < c_pos; i++) s.c[i] = c_choice[i];
				}
			}
			if (g_sh->stop.load(std::memory_order_relaxed)) break;
			if (!advance()) break;
		}
		if (resume) _exit(0);
		// Hand the visited sets to the parent.
		std::string f = tmp + mc::str("/w%zu.bin", w);
		FILE* fp = fopen(f.c_str(), "wb");
		uint64_t ns = c_states.size(), no = c_outcomes.size();
		fwrite(&ns, 8, 1, fp); for (uint64_t x : c_states) fwrite(&x, 8, 1, fp);
		fwrite(&no, 8, 1, fp); for (uint64_t x : c_outcomes) fwrite(&x, 8, 1, fp);
		fclose(fp);
		g_me->status = 1;
		_exit(0);
	}

	static double now()
	{
		struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
		return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
	}

	static std::string jstr(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			char b[8];
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}

	// Runs one choice vector in a child. Returns: 0 ok, 42 violation, 128+sig / other: crashed, -1: hung.
	static int run_replay(Harness* h, const std::vector<uint16_t>& v, bool verbose, const std::string& outfile, double limit)
	{
		Slot* s = &g_sh->slot[MAXW - 1];
		memset((void*)s, 0, sizeof *s);
		pid_t p = fork();
		if (p == 0) {
			g_me = s;
			int fd = open(outfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 1); dup2(fd, 2);
			g_verbose = verbose; g_verbose_fd = 1;
			c_replay_only = true;
			c_choice = v; c_width.assign(v.size(), 0);
			run_once(h->body);
			_exit(0);
		}
		double t0 = now();
		for (;;) {
			int st; pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) {
				if (WIFSIGNALED(st)) return 128 + WTERMSIG(st);
				return WEXITSTATUS(st);
			}
			if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
			usleep(2000);
		}
	}

	// Re-runs everything worker w ran, up to and including the failure: for failures that depend on what
	// earlier executions left behind in the process.
	static int run_history(Harness* h, size_t w, const std::string& tmp, const std::string& outfile, double limit)
	{
		Slot* s = &g_sh->slot[MAXW - 1];
		memset((void*)s, 0, sizeof *s);
		g_sh->stop.store(0);
		pid_t p = fork();
		if (p == 0) {
			g_me = s;
			int fd = open(outfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 1); dup2(fd, 2);
			c_history_of = (int)w;
			worker(h, w, tmp, true);
		}
		double t0 = now();
		for (;;) {
			int st; pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) return WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
			if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
			usleep(2000);
		}
	}

	static std::string slurp(const std::string& f, size_t max = 60000)
	{
		std::string s; FILE* fp = fopen(f.c_str(), "rb");
		if (!fp) return s;
		char buf[4096]; size_t n;
		while ((n = fread(buf, 1, sizeof buf, fp)) > 0 && s.size() < max) s.append(buf, n);
		fclose(fp);
		return s;
	}

	static std::string crash_key(int rc, const std::string& out)
	{
		if (rc == -1) return "hang";
		size_t p = out.find("AddressSanitizer: ");
		if (p != std::string::npos) {
			p += 18; size_t e = out.find_first_of(" \n", p);
			return "crash:asan:" + out.substr(p, e - p);
		}
		p = out.find("runtime error: ");
		if (p != std::string::npos) {
			size_t e = out.find('\n', p);
			return "crash:ubsan:" + out.substr(p + 15, std::min<size_t>(e - p - 15, 60));
		}
		if (out.find("terminate called") != std::string::npos) return "crash:terminate";
		return mc::str("crash:exit:%d", rc);
	}

	static int explore(Harness* h, size_t workers, double cap, double hang, const std::string& tmp, const std::string& outjson)
	{
		double t0 = now();
		memset((void*)g_sh, 0, sizeof *g_sh);
		std::vector<pid_t> pid(workers, -1);
		std::vector<uint64_t> beat(workers, 0); std::vector<double> last(workers, t0);
		for (size_t w = 0; w < workers; w++) {
			pid_t p = fork();
			if (p == 0) {
				// What a crashing execution prints is of interest only when it is replayed.
				int fd = open((tmp + mc::str("/w%zu.out", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				dup2(fd, 1); dup2(fd, 2);
				worker(h, w, tmp, false);
			}
			pid[w] = p;
		}
		size_t alive = workers;
		bool capped = false;
		struct Bad { size_t w; std::string kind, key, msg; std::vector<uint16_t> v; std::string trace; bool confirmed; int rc; };
		std::vector<Bad> bad;
		while (alive) {
			bool any = false;
			for (size_t w = 0; w < workers; w++) {
				if (pid[w] < 0) continue;
				Slot& s = g_sh->slot[w];
				int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
				bool hung = false;
				if (r == 0) {
					uint64_t b = s.beat.load();
					if (b != beat[w]) { beat[w] = b; last[w] = now(); continue; }
					else if (s.running && now() - last[w] > hang) { hung = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); }
					else continue;
				}
				any = true; pid[w] = -1; --alive;
				if (!hung && s.status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				Bad x; x.w = w; x.confirmed = false; x.rc = hung ? -1 : WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
				if (s.status == 2) { x.kind = "violation"; x.key = s.key; x.msg = s.msg; }
				else x.kind = hung ? "hang" : "crash";
				x.v.assign(s.choice, s.choice + s.nchoices);
				bad.push_back(x);
				g_sh->stop.store(1);
			}
			if (!capped && now() - t0 > cap) { capped = true; g_sh->stop.store(1); }
			if (!any) usleep(3000);
		}
		bool internal = false;
		std::string internal_msg;
		std::vector<Bad> confirmed;
		uint64_t known_extra[MAXKNOWN] = {};
		for (auto& x : bad) {
			if (x.rc == 98 || x.rc == 99) { internal = true; internal_msg = mc::str("worker exited with %d (divergence or explorer limit)", x.rc); continue; }
			if (x.kind == "hang" && !confirmed.empty()) continue; // one confirmed failure is enough, and waiting for more takes long
			// Replay before report: the same choices must fail again, twice.
			std::string f = tmp + "/r.txt", k1, m1;
			double limit = x.kind == "hang" ? std::max(45.0, hang * 2) : std::max(60.0, hang);
			size_t fails = 0;
			bool diverged = false, timed_out = false;
			for (int i = 0; i < 4 && fails < 2 && !timed_out; i++) {
				int rc = run_replay(h, x.v, true, f, limit);
				if (rc == 0) continue;
				if (rc == 98 || rc == 99) { diverged = true; break; }
				Slot* s = &g_sh->slot[MAXW - 1];
				k1 = rc == 42 ? s->key : crash_key(rc, slurp(f));
				m1 = rc == 42 ? s->msg : "";
				x.trace = slurp(f);
				fails++;
				if (rc == -1) timed_out = true;
			}
			if (diverged) { internal = true; internal_msg = "replay diverged"; continue; }
			if (fails < 2 && !timed_out) {
				int rc = run_history(h, x.w, tmp, f, std::max(120.0, cap));
				Slot* s = &g_sh->slot[MAXW - 1];
				std::vector<uint16_t> v(s->choice, s->choice + std::min<size_t>(s->nchoices, MAXC));
				if (rc == 0 || rc == -1 || rc == 98 || rc == 99 || v != x.v) {
					internal = true; internal_msg = mc::str("a reported failure did not replay (exit %d, worker %zu): ", x.rc, x.w) + x.kind + " " + x.key + " " + x.msg; continue;
				}
				k1 = rc == 42 ? s->key : crash_key(rc, slurp(f));
				m1 = (rc == 42 ? std::string(s->msg) : k1) + " (depends on earlier executions in the same process: replay by re-running the harness)";
				x.trace = slurp(f);
			}
			x.key = k1; x.msg = m1.empty() ? k1 : m1; x.confirmed = true;
			confirmed.push_back(x);
		}
		// Totals.
		uint64_t execs = 0, trans = 0, nontriv = 0, jobs = 0, depth = 0;
		std::unordered_set<uint64_t> states, outs;
		for (size_t w = 0; w < workers; w++) {
			Slot& s = g_sh->slot[w];
			execs += s.execs; trans += s.transitions; nontriv += s.nontriv; jobs += s.jobs;
			depth = std::max(depth, s.max_depth);
			for (size_t i = 0; i < g_known.size(); i++) known_extra[i] += s.known_count[i];
			std::string f = tmp + mc::str("/w%zu.bin", w);
			if (FILE* fp = fopen(f.c_str(), "rb")) {
				uint64_t n, x;
				if (fread(&n, 8, 1, fp) == 1) { for (uint64_t i = 0; i < n; i++) if (fread(&x, 8, 1, fp) == 1) states.insert(x); }
				if (fread(&n, 8, 1, fp) == 1) { for (uint64_t i = 0; i < n; i++) if (fread(&x, 8, 1, fp) == 1) outs.insert(x); }
				fclose(fp); unlink(f.c_str());
			}
		}
		std::string samples;
		if (confirmed.empty() && !internal) {
			int taken = 0;
			for (size_t w = 0; w < workers && taken < 3; w++) {
				Slot s; memcpy((void*)&s, (void*)&g_sh->slot[w], sizeof s);
				for (uint32_t i = s.nsamples; i-- > 0 && taken < 3;) {
					std::vector<uint16_t> v(s.sample[i].c, s.sample[i].c + s.sample[i].n);
					std::string f = tmp + "/s.txt";
					int rc = run_replay(h, v, true, f, 60);
					if (rc == 98) { internal = true; internal_msg = "a recorded execution did not replay"; break; }
					std::string cs; for (uint16_t c : v) cs += (cs.empty() ? "" : ",") + std::to_string(c);
					samples += (samples.empty() ? "" : ",") + std::string("{\"harness\":") + jstr(h->name) + ",\"choices\":" + jstr(cs) + ",\"trace\":" + jstr(slurp(f, 1500).substr(0, 1500)) + "}";
					taken++;
					break;
				}
			}
		}
		FILE* fp = fopen(outjson.c_str(), "wb");
		fprintf(fp, "{\"harness\":%s,\"executions\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"jobs\":%llu,\"states\":%zu,\"outcomes\":%zu,\"max_depth\":%llu,\"exhaustive\":%s,\"capped\":%s,\"wall_s\":%.3f,\"internal_error\":%s,",
			jstr(h->name).c_str(), (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)nontriv, (unsigned long long)jobs, states.size(), outs.size(), (unsigned long long)depth,
			!capped && bad.empty() ? "true" : "false", capped ? "true" : "false", now() - t0, internal ? jstr(internal_msg).c_str() : "null");
		fprintf(fp, "\"known\":{");
		bool first = true;
		for (size_t i = 0; i < g_known.size(); i++) if (known_extra[i]) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(g_known[i]).c_str(), (unsigned long long)known_extra[i]); first = false; }
		fprintf(fp, "},\"samples\":[%s],\"violations\":[", samples.c_str());
		for (size_t i = 0; i < confirmed.size(); i++) {
			auto& x = confirmed[i];
			std::string cs; for (uint16_t c : x.v) cs += (cs.empty() ? "" : ",") + std::to_string(c);
			fprintf(fp, "%s{\"key\":%s,\"msg\":%s,\"choices\":%s,\"trace\":%s}", i ? "," : "", jstr(x.key).c_str(), jstr(x.msg).c_str(), jstr(cs).c_str(), jstr(x.trace).c_str());
		}
		fprintf(fp, "]}\n");
		fclose(fp);
		return confirmed.empty() ? internal ? 2 : 0 : 1;
	}
}

int main(int argc, char** argv)
{
	using namespace mc;
	std::string harness, out, replay, tmp = "/tmp"; bool list = false, do_replay = false;
	size_t workers = 8; double cap = 600, hang = 30;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
		if (a == "--list") list = true;
		else if (a == "--harness") harness = val();
		else if (a == "--out") out = val();
		else if (a == "--replay") { replay = val(); do_replay = true; }
		else if (a == "--workers") workers = (size_t)atoi(val());
		else if (a == "--cap") cap = atof(val());
		else if (a == "--hang") hang = atof(val());
		else if (a == "--tmp") tmp = val();
		else if (a == "--thorough") g_thorough = true;
		else if (a == "--known") g_known.push_back(val());
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if (list) { for (Harness* h = g_first; h; h = h->next) puts(h->name); return 0; }
	Harness* h = g_first;
	while (h && harness != h->name) h = h->next;
	if (!h) { fprintf(stderr, "no such harness: %s\n", harness.c_str()); return 2; }
	if (workers > MAXW - 1) workers = MAXW - 1;
	g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
	if (do_replay) {
		g_me = &g_sh->slot[0];
		g_verbose = true;
		c_replay_only = true;
		for (const char* p = replay.c_str(); *p;) { char* e; c_choice.push_back((uint16_t)strtoul(p, &e, 10)); p = *e ? e + 1 : e; }
		c_width.assign(c_choice.size(), 0);
		run_once(h->body);
		puts("execution completed without a violation");
		return 0;
	}
	return explore(h, workers, cap, hang, tmp, out);
}
