// Explicit-state / bounded-exhaustive checking kit used by every harness in this folder.
//
// A harness consists of sections.  Every section enumerates a finite space completely and runs
// the real code on every member of it.  Sections run as forked children, so that an abort, a
// sanitizer report, a crash or a hang of the code under test is attributed to the exact case
// (the vector of small integers in shared memory) that was running.  A failing case is run again
// alone before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cmath>
#include <complex>
#include <limits>
#include <initializer_list>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

#include "Exceptions.h"

namespace mc {

struct Fail { std::string msg; };

struct Slot {
	volatile uint64_t progress;	// cases begun, watched by the parent
	uint64_t states, transitions, traces, evals, cases, nontrivial, faults;
	volatile int nvals;
	volatile int64_t vals[256];
	char msg[8192];
	char notes[32768];
	volatile int notelen;
	char samples[3][2048];
	volatile int nsamples;
	volatile int done;	// 1 finished, 2 failed with msg
	volatile int matched;	// replay: case was found
	volatile int cut;	// bound on the depth was reached before a fixpoint
};

inline std::string sprintf_(const char* f, va_list ap)
{
	char b[4096];
	vsnprintf(b, sizeof b, f, ap);
	return b;
}

// Inputs may hold any bytes
inline std::string shown(const std::string& t)
{
	std::string r;
	for (unsigned char ch : t)
		if (ch == '\n' || ch == '\t' || (ch >= 32 && ch < 127)) r += (char)ch;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
	return r;
}

struct Ctx {
	Slot* s = nullptr;
	bool replay = false;	// run only the case `want`, with notes
	bool sampling = false;	// describe this case as a sample
	bool thorough = false;
	std::vector<int64_t> want;
	uint64_t sampleAt = 5;

	bool verbose() const { return replay || sampling; }

	// Starts a case.  False: skip it.
	bool begin(const int64_t* v, int n)
	{
		if (replay)
		{
			if ((int)want.size() != n) return false;
			for (int i = 0; i < n; ++i) if (want[i] != v[i]) return false;
			s->matched = 1;
		}
		endSample();
		s->nvals = n > 256 ? 256 : n;
		for (int i = 0; i < s->nvals; ++i) s->vals[i] = v[i];
		s->progress = s->progress + 1;
		s->cases++;
		if (!replay && s->nsamples < 3 && s->cases >= sampleAt)
		{
			sampling = true;
			sampleAt = s->cases * 17 + 40;
			s->notelen = 0;
			s->notes[0] = 0;
		}
		return true;
	}
	bool begin(const std::vector<int64_t>& v) { return begin(v.data(), (int)v.size()); }
	bool begin(std::initializer_list<int64_t> v) { return begin(v.begin(), (int)v.size()); }

	void endSample()
	{
		if (!sampling) return;
		sampling = false;
		std::string t;
		for (int i = 0; i < s->nvals; ++i) t += (i ? "," : "[") + std::to_string((long long)s->vals[i]);
		t += "] ";
		t += s->notes;
		strncpy(s->samples[s->nsamples], t.c_str(), sizeof s->samples[0] - 1);
		s->nsamples = s->nsamples + 1;
	}

	void note(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!verbose()) return;
		va_list ap; va_start(ap, f);
		std::string t = sprintf_(f, ap);
		va_end(ap);
		int room = (int)sizeof s->notes - 2 - s->notelen;
		if ((int)t.size() > room) t.resize(room > 0 ? room : 0);
		memcpy(s->notes + s->notelen, t.c_str(), t.size() + 1);
		s->notelen = s->notelen + (int)t.size();
	}

	[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		va_list ap; va_start(ap, f);
		std::string t = sprintf_(f, ap);
		va_end(ap);
		throw Fail{t};
	}

	void state() { s->states++; }
	void transition(uint64_t n = 1) { s->transitions += n; }
	void trace() { s->traces++; }
	void nontrivial() { s->nontrivial++; }
	void fault() { s->faults++; }
};

// One comparison with the oracle in a function that has the context as c; the message is made on failure only
#define CK(COND, ...) do { ++c.s->evals; if (!(COND)) c.fail(__VA_ARGS__); } while (0)
#define NOTE(...) do { if (c.verbose()) c.note(__VA_ARGS__); } while (0)

typedef void (*SectionFn)(Ctx&);
struct Section { const char* name; SectionFn fn; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, SectionFn f) { sections().push_back(Section{n, f}); } };

#define MC_SECTION(NAME) \
	static void mc_section_##NAME(mc::Ctx& c); \
	static mc::Reg mc_reg_##NAME(#NAME, mc_section_##NAME); \
	static void mc_section_##NAME(mc::Ctx& c)

template<class T> double tolerance() { return std::max((double)std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon()); }	// oracles work in double

// For templates: MC_REGISTER(name, function)
// The same, explored by the thorough command only
#define MC_REGISTER_DEEP(NAME, ...) static void mc_deep_##NAME(mc::Ctx& c) { if (c.thorough) (__VA_ARGS__)(c); } static mc::Reg mc_reg_##NAME(#NAME, mc_deep_##NAME)
#define MC_REGISTER(NAME, ...) static mc::Reg mc_reg_##NAME(#NAME, __VA_ARGS__)

struct Meta {
	const char* property;
	const char* level;	// model_checking, exploration or fault_enumeration
	const char* rule;	// exploration, fault_enumeration: what a case is
	std::vector<std::string> assumptions;
};

//---------------------------------------------------------------------------------------------
// Breadth first search over histories of operations on real objects.
//
// Sys: struct State (copyable, holds the implementation object and its model);
//      void init(int variant, State&); int variants(); int ops(const State&);
//      bool apply(Ctx&, State&, int op)  false: not enabled; compares results, throws Fail
//      void verify(Ctx&, State&)         full comparison implementation <-> model
//      void key(const State&, std::string&)  identifies implementation and model state
// Up to depth `full` every history is followed; deeper ones are continued from one history per
// distinct key only.
template<class Sys>
void explore(Ctx& c, Sys& sys, int depth, int full)
{
	typedef typename Sys::State State;
	if (c.replay)
	{
		if (c.want.empty() || c.want[0] >= sys.variants()) return;
		c.begin(c.want);
		State st;
		c.note("initial state %d\n", (int)c.want[0]);
		sys.init((int)c.want[0], st);
		sys.verify(c, st);
		for (size_t i = 1; i < c.want.size(); ++i)
		{
			if (!sys.apply(c, st, (int)c.want[i])) return;
			sys.verify(c, st);
		}
		return;
	}

	struct Node { State st; std::vector<int64_t> hist; };
	std::unordered_set<std::string> seen;
	std::vector<Node> frontier, next;
	std::string key;
	for (int v = 0; v < sys.variants(); ++v)
	{
		Node n;
		n.hist.push_back(v);
		c.begin(n.hist);
		sys.init(v, n.st);
		sys.verify(c, n.st);
		key.clear();
		sys.key(n.st, key);
		if (seen.insert(key).second) c.state();
		frontier.push_back(n);
	}
	for (int d = 1; d <= depth && !frontier.empty(); ++d)
	{
		next.clear();
		for (size_t f = 0; f < frontier.size(); ++f)
		{
			Node& n = frontier[f];
			const int k = sys.ops(n.st);
			for (int op = 0; op < k; ++op)
			{
				std::vector<int64_t> h = n.hist;
				h.push_back(op);
				c.begin(h);
				if (c.sampling && d > 1) c.note("... ");
				State st = n.st;
				if (!sys.apply(c, st, op)) continue;
				sys.verify(c, st);
				c.transition();
				key.clear();
				sys.key(st, key);
				const bool fresh = seen.insert(key).second;
				if (fresh) c.state();
				if (fresh && d == depth) c.s->cut = 1;
				if (d < depth && (fresh || d < full))
				{
					next.push_back(Node());
					next.back().st = st;
					next.back().hist = h;
				}
				if (fresh)
				{
					// The same history on fresh objects, without the copies made by this search
					c.endSample();
					State re;
					sys.init((int)h[0], re);
					for (size_t i = 1; i < h.size(); ++i)
						sys.apply(c, re, (int)h[i]);
					sys.verify(c, re);
					std::string k2;
					sys.key(re, k2);
					if (k2 != key) c.fail("history ends in another state when run again from the start");
					c.trace();
				}
			}
		}
		frontier.swap(next);
	}
}

//---------------------------------------------------------------------------------------------
inline double now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string esc(const std::string& s)
{
	std::string r;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch == '\t') r += "\\t";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
		else r += (char)ch;
	}
	return r;
}

inline Slot* newSlot()
{
	void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	memset(p, 0, sizeof(Slot));
	return (Slot*)p;
}

inline pid_t launch(const Section& sec, Slot* slot, bool thorough, const std::vector<int64_t>* want, const std::string& log)
{
	fflush(stdout);
	fflush(stderr);
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (p) return p;

	int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
	{
		rlimit l;
		l.rlim_cur = l.rlim_max = 256u << 20;	// output
		setrlimit(RLIMIT_FSIZE, &l);
#if !defined(__SANITIZE_ADDRESS__)
		l.rlim_cur = l.rlim_max = (rlim_t)8 << 30;	// memory; runs with AddressSanitizer have a limit in ASAN_OPTIONS
		setrlimit(RLIMIT_AS, &l);
#endif
	}
	Ctx c;
	c.s = slot;
	c.thorough = thorough;
	if (want) { c.replay = true; c.want = *want; }
	int rc = 1;
	std::string m;
	try
	{
		sec.fn(c);
		c.endSample();
		rc = 1;
	}
	catch (const Fail& f) { rc = 2; m = f.msg; }
	catch (const NS::NSException& e) { rc = 2; m = std::string("unexpected exception: ") + e.what(); }
	catch (const std::exception& e) { rc = 2; m = std::string("unexpected exception: ") + e.what(); }
	catch (...) { rc = 2; m = "unexpected exception"; }
	if (rc == 2) strncpy(slot->msg, m.c_str(), sizeof slot->msg - 1);
	slot->done = rc;
	fflush(stdout);
	fflush(stderr);
	if (rc == 1) exit(0);	// runs the leak check when there is one
	_exit(0);
}

inline std::string tail(const std::string& path, size_t n)
{
	std::ifstream f(path);
	std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	// the interesting part of sanitizer reports is at their start
	size_t p = s.find("==ERROR");
	if (p == std::string::npos) p = s.find("runtime error");
	if (p != std::string::npos) { p = s.rfind('\n', p); s = s.substr(p == std::string::npos ? 0 : p + 1); return s.substr(0, n); }
	return s.size() > n ? s.substr(s.size() - n) : s;
}

struct Run { pid_t pid; Slot* slot; size_t sec; double last; uint64_t lastProgress; std::string log; bool over; std::string bad; };

// "" when the child ended well
inline std::string outcome(int status, Slot* slot, const std::string& log)
{
	if (slot->done == 2) return slot->msg;
	if (WIFSIGNALED(status))
		return "the code under test ended with signal " + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ") " + tail(log, 1500);
	if (WEXITSTATUS(status) != 0)
		return "the code under test ended the process with status " + std::to_string(WEXITSTATUS(status)) + " " + tail(log, 3000);
	if (slot->done != 1)
		return "the code under test ended the process";
	return "";
}

inline int main_(int argc, char** argv, const Meta& meta)
{
	const double t0 = now();
	const char* tier = getenv("VERIF_TIER");
	const bool thorough = tier && !strcmp(tier, "thorough");
	const char* seed = getenv("VERIF_SEED");
	const char* outdir = getenv("MC_OUT");
	const char* tmp = getenv("MC_TMP");
	std::string od = outdir ? outdir : ".", td = tmp ? tmp : "/tmp";
	const double hang = 100;	// no case takes more than some seconds
	bool stop = false;

	auto& S = sections();
	std::string only;
	std::vector<int64_t> want;
	bool single = false;
	for (int i = 1; i < argc; ++i)
	{
		if (!strcmp(argv[i], "--section") && i + 1 < argc) only = argv[++i];
		else if (!strcmp(argv[i], "--case") && i + 1 < argc)
		{
			single = true;
			std::stringstream ss(argv[++i]);
			std::string x;
			while (std::getline(ss, x, ',')) want.push_back(atoll(x.c_str()));
		}
	}

	auto replayOne = [&](size_t i, const std::vector<int64_t>& v, std::string& notes) -> std::string
	{
		Slot* s = newSlot();
		std::string log = td + "/replay.log";
		pid_t p = launch(S[i], s, thorough, &v, log);
		const double t = now();
		int st = 0;
		bool killed = false;
		while (waitpid(p, &st, WNOHANG) == 0)
		{
			usleep(2000);
			if (now() - t > hang * 2) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
		}
		std::string r = killed ? "the code under test does not come to an end" : outcome(st, s, log);
		notes = s->notes;
		if (r.empty() && !s->matched && !v.empty() && s->cases == 0) notes += "(case not found)";
		munmap(s, sizeof(Slot));
		unlink(log.c_str());
		return r;
	};

	if (single)
	{
		for (size_t i = 0; i < S.size(); ++i)
			if (only == S[i].name)
			{
				std::string notes, r = replayOne(i, want, notes);
				printf("%s\n%s\n", shown(notes).c_str(), r.empty() ? "held" : shown(r).c_str());
				return r.empty() ? 0 : 1;
			}
		return 3;
	}

	unsigned par = 8;
	if (const char* j = getenv("MC_JOBS")) par = (unsigned)atoi(j);
	std::vector<Run> runs;
	std::vector<Run> finished;
	size_t nextSec = 0;
	int violations = 0;
	while (!stop && (nextSec < S.size() || !runs.empty()))
	{
		while (nextSec < S.size() && runs.size() < par)
		{
			if (!only.empty() && only != S[nextSec].name) { ++nextSec; continue; }
			Run r;
			r.slot = newSlot();
			r.sec = nextSec;
			r.log = td + "/section" + std::to_string(nextSec) + ".log";
			r.last = now();
			r.lastProgress = 0;
			r.over = false;
			r.pid = launch(S[nextSec], r.slot, thorough, nullptr, r.log);
			runs.push_back(r);
			++nextSec;
		}
		if (runs.empty()) break;
		usleep(3000);
		for (size_t i = 0; i < runs.size();)
		{
			Run& r = runs[i];
			int st = 0;
			pid_t w = waitpid(r.pid, &st, WNOHANG);
			if (w == r.pid)
			{
				r.bad = outcome(st, r.slot, r.log);
				finished.push_back(r);
				unlink(r.log.c_str());
				runs.erase(runs.begin() + i);
				continue;
			}
			if (r.slot->progress != r.lastProgress || r.slot->done) { r.lastProgress = r.slot->progress; r.last = now(); }
			else if (now() - r.last > hang)
			{
				kill(r.pid, SIGKILL);
				waitpid(r.pid, &st, 0);
				r.bad = "the code under test does not come to an end";
				finished.push_back(r);
				unlink(r.log.c_str());
				runs.erase(runs.begin() + i);
				stop = true;
				break;
			}
			++i;
		}
	}

	// After one section that does not end, the others are given up
	for (auto& r : runs) { int st; kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); unlink(r.log.c_str()); }
	std::sort(finished.begin(), finished.end(), [](const Run& a, const Run& b) { return a.sec < b.sec; });
	Slot tot;
	memset(&tot, 0, sizeof tot);
	std::vector<std::string> samples;
	std::string details;
	for (auto& r : finished)
	{
		tot.states += r.slot->states; tot.transitions += r.slot->transitions; tot.traces += r.slot->traces;
		tot.evals += r.slot->evals; tot.cases += r.slot->cases; tot.nontrivial += r.slot->nontrivial; tot.faults += r.slot->faults;
		for (int i = 0; i < r.slot->nsamples && i < 3; ++i)
			samples.push_back(std::string(S[r.sec].name) + " " + r.slot->samples[i]);
		char b[512];
		snprintf(b, sizeof b, "%s\"%s\": {\"cases\": %llu, \"comparisons\": %llu, \"states\": %llu, \"transitions\": %llu, \"closed\": %s}",
			details.empty() ? "" : ", ", S[r.sec].name, (unsigned long long)r.slot->cases, (unsigned long long)r.slot->evals,
			(unsigned long long)r.slot->states, (unsigned long long)r.slot->transitions, r.slot->cut ? "false" : "true");
		details += b;

		if (!r.bad.empty())
		{
			std::vector<int64_t> v;
			for (int i = 0; i < r.slot->nvals; ++i) v.push_back((int64_t)r.slot->vals[i]);
			std::string notes, again = replayOne(r.sec, v, notes);
			std::string arg;
			for (auto x : v) arg += (arg.empty() ? "" : ",") + std::to_string((long long)x);
			// A leak shows when a whole section ends
			const bool leak = again.empty() && r.slot->done == 1;
			if (again.empty() && !leak && r.bad.find("does not come to an end") != std::string::npos)
			{
				printf("section %s: case %s stalled once but ended when run alone; not counted\n", S[r.sec].name, arg.c_str());
				// No answer for the rest of this section: an error of the check
				printf("ERROR: section %s was not completed\n", S[r.sec].name);
				return 3;
			}
			++violations;
			std::string path = od + "/" + meta.property + "." + S[r.sec].name + ".replay.txt";
			std::ofstream f(path);
			f << "property " << meta.property << "\nsection " << S[r.sec].name << "\ncase " << arg << "\n"
				<< "replay: bash /verif/run.sh " << meta.property << " --section " << S[r.sec].name << " --case " << arg << "\n\n"
				<< "what happened:\n" << shown(r.bad) << "\n\nsteps of the case:\n" << shown(notes) << "\nrun again alone: "
				<< shown(again.empty() ? (leak ? "(shows at the end of the section)" : "NOT REPRODUCED ALONE") : again) << "\n";
			f.close();
			printf("section %s, case [%s]: %s\n%s\n", S[r.sec].name, arg.c_str(), shown(r.bad).c_str(), shown(notes).c_str());
			printf("VIOLATION property=%s replay=%s\n", meta.property, path.c_str());
			fflush(stdout);
		}
	}

	std::string path = od + "/" + meta.property + ".json";
	std::ofstream f(path);
	f << "{\n \"property\": \"" << meta.property << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": "
		<< (seed ? atoi(seed) : 1) << ",\n \"level\": \"" << meta.level << "\",\n \"coverage\": {\n";
	if (!strcmp(meta.level, "model_checking"))
		f << "  \"states\": " << tot.states << ",\n  \"transitions\": " << tot.transitions << ",\n  \"traces_validated_against_impl\": "
			<< tot.traces << ",\n  \"comparisons_with_the_model\": " << tot.evals << ",\n";
	else
		f << "  \"evaluations\": " << tot.evals << ",\n  \"distinct_nontrivial\": " << tot.nontrivial << ",\n  \"inputs\": " << tot.cases << ",\n";
	if (tot.faults) f << "  \"faults_injected\": " << tot.faults << ",\n";
	f << "  \"rule\": \"" << esc(meta.rule) << "\",\n";
	f << "  \"exhaustive\": true,\n  \"sections\": {" << details << "},\n  \"samples\": [";
	for (size_t i = 0; i < samples.size() && i < 24; ++i)
		f << (i ? ",\n   " : "\n   ") << "\"" << esc(samples[i]) << "\"";
	f << "]\n },\n \"assumptions\": [";
	for (size_t i = 0; i < meta.assumptions.size(); ++i)
		f << (i ? ", " : "") << "\"" << esc(meta.assumptions[i]) << "\"";
	f << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
	f.close();
	printf("%s %s: %llu cases, %llu comparisons, %llu states, %llu transitions, %llu traces, %.1f s, %d violation(s)\n", meta.property,
		thorough ? "thorough" : "quick", (unsigned long long)tot.cases, (unsigned long long)tot.evals, (unsigned long long)tot.states,
		(unsigned long long)tot.transitions, (unsigned long long)tot.traces, now() - t0, violations);
	return violations ? 1 : 0;
}

//---------------------------------------------------------------------------------------------
// Small helpers
template<class E, class F> bool throws(F f)
{
	try { f(); } catch (const E&) { return true; }
	return false;
}
// A deviation that known-findings.txt lists under this name was recognised; any other name fails
inline void known(Ctx& c, const char* name)
{
	const char* list = getenv("MC_KNOWN");
	if (!list || std::string(list).find(std::string("[") + name + "]") == std::string::npos) c.fail("%s: the deviation of this name is not a recorded finding", name);
	const char* dir = getenv("MC_TMP");
	if (dir) { std::ofstream f(std::string(dir) + "/known-" + name); f << "\n"; }
}
// Digits of a number in base b, for enumerations
inline void digits(uint64_t x, int b, int n, int* out) { for (int i = 0; i < n; ++i) { out[i] = (int)(x % b); x /= b; } }
inline uint64_t ipow(uint64_t b, int n) { uint64_t r = 1; while (n-- > 0) r *= b; return r; }

} // namespace mc
