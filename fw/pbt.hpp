// Small property-based testing engine used by every harness in /verif/harness.
//
// A law is a function that draws its input from a Src (a recorded sequence of bounded integer choices) and states its
// oracle with c.check/c.eq/c.near.  The engine runs a fixed number of cases per law, each one a pure function of
// (seed, law name, case index); it forks workers so that a crash, a sanitizer report, a failed assert or a hang of the
// code under test is just another failing case; it shrinks any failure by editing the choice sequence (delete, zero,
// minimise), and writes the shrunk sequence as the replay.  The same laws are driven by libFuzzer when PBT_LIBFUZZER
// is defined (input bytes become the choices).
#pragma once
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cassert>
#include <algorithm>
#include <array>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

typedef uint64_t u64;
constexpr u64 MAX_CHOICES = 1u << 16;

struct Discard { };
struct Fail { std::string msg; };

inline u64 splitmix(u64& x)
{
	u64 z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline u64 hashStr(const char* s)
{
	u64 h = 1469598103934665603ull;
	while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; }
	return h;
}
inline std::string fmt(const char* f, ...)
{
	char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// State a worker shares with the parent, so that the parent knows the case a dead worker was running.
struct Shared
{
	volatile u64 caseIndex, count, status, stage; // status: 0 running 1 finished-range 2 failed-case; stage: 1 in the neighbour of a case
	u64 choice[MAX_CHOICES];
	char msg[8192];
	char trace[16384];
	// counters
	u64 done, discarded, nontrivial;
	u64 classCount[64]; char className[64][48]; u64 classes;
	u64 knownCount[32];
};

class Src
{
	int mode; u64 rng = 0; const u64* rep = nullptr; u64 repN = 0, pos = 0;
	const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
	bool echo = false, nudge = false; u64 echoAt = ~0ull, from = 0, to = 0; int kind = 0;
	static u64* bounds() { static thread_local std::vector<u64> b(MAX_CHOICES); return b.data(); }
	// One case in six is an echoing one: now and then it repeats a run of its own earlier choices, so that values
	// of different arguments coincide, in one component or as a whole.
	u64 fresh(u64 max)
	{
		u64 r = splitmix(rng), v = max == ~0ull ? r : (u64)(((unsigned __int128)r * (max + 1)) >> 64), n = *outN; if (!echo || scratch || n >= MAX_CHOICES) return v;
		u64* b = bounds(); b[n] = max; u64 d = splitmix(rng);
		if (echoAt == ~0ull) { if (d % 8 == 0 && n) { u64 j = (d >> 8) % n; for (int i = 0; i < 8 && b[j] != max; i++) j = j ? j - 1 : n - 1; if (b[j] == max) echoAt = j; } }
		else if (d % 8 == 0 || b[echoAt] != max) echoAt = ~0ull;
		if (echoAt == ~0ull) return v;
		v = out[echoAt++]; if ((d >> 40) % 16 == 0) v += d >> 60 & 1 ? v < max : v ? -1ull : 0; // almost the same
		return v;
	}
public:
	u64* out; volatile u64* outN; char* traceBuf = nullptr; bool verbose = false; std::string trace; double maxErr = 0;
	bool scratch = false; // a source seeded by one choice of another one: its choices are not recorded

	Src(u64 seed, u64* o, volatile u64* n) : mode(0), rng(seed), out(o), outN(n) { *outN = 0; echo = splitmix(rng) % 6 == 0; }
	Src(const u64* r, u64 rn, u64* o, volatile u64* n) : mode(1), rep(r), repN(rn), out(o), outN(n) { *outN = 0; }
	// A neighbour of another case: its choices again, but for a few of them. Run right after that case it also tells whether
	// the code under test remembers something of the call before, which it should not.
	Src(const std::vector<u64>& base, u64 seed, u64* o, volatile u64* n) : mode(3), rng(seed), rep(base.data()), repN(base.size()), out(o), outN(n)
	{
		*outN = 0; u64 k = splitmix(rng), len = repN ? repN : 1; kind = (int)(k % 4); from = (k >> 8) % len; to = from + 1;
		if (kind == 1) to = from + 1 + (k >> 40) % 8; else if (kind == 2) to = from + 1 + (k >> 40) % (len / 3 + 1); nudge = k >> 62 == 0;
	}
	Src(const uint8_t* b, size_t nb, u64* o, volatile u64* n) : mode(2), bytes(b), nbytes(nb), out(o), outN(n) { *outN = 0; }

	// A choice in [0, max]; 0 is the simplest one.
	u64 draw(u64 max)
	{
		u64 v;
		if (mode == 0) v = fresh(max);
		else if (mode == 3)
		{
			bool change = pos >= repN || (kind == 3 ? splitmix(rng) % 8 == 0 : pos >= from && pos < to);
			if (!change) v = rep[pos]; else if (nudge && pos < repN) { u64 r = splitmix(rng); v = r & 1 ? rep[pos] + 1 : rep[pos] ? rep[pos] - 1 : 0; } else { u64 r = splitmix(rng); v = max == ~0ull ? r : (u64)(((unsigned __int128)r * (max + 1)) >> 64); }
			pos++; if (v > max) v = max;
		}
		else if (mode == 1) { v = pos < repN ? rep[pos] : 0; pos++; if (v > max) v = max; }
		else
		{
			int w = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffull ? 4 : 8;
			v = 0;
			for (int i = 0; i < w; i++) v |= (u64)(bpos < nbytes ? bytes[bpos] : 0) << (8 * i), bpos++;
			if (max != ~0ull) v %= max + 1;
		}
		if (scratch) return v;
		u64 n = *outN;
		if (n >= MAX_CHOICES) throw Discard();
		out[n] = v; *outN = n + 1;
		return v;
	}
	u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo); }
	int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)draw((u64)(hi - lo)); }
	bool chance(u64 num, u64 den) { return draw(den - 1) >= den - num; }
	template<class T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size() - 1)]; }
	void say(const std::string& t) { if (verbose && trace.size() < 12000) { trace += t; trace += "; "; if (traceBuf) strncpy(traceBuf, trace.c_str(), 16383); } }
	void say(const char* n, double v) { if (verbose) say(fmt("%s=%.10g", n, v)); }

	double u01() { return (double)draw((1u << 24) - 1) / (double)(1u << 24); }
	double uni(double lo, double hi) { return lo + (hi - lo) * u01(); }
	// Moderate real in [lo,hi] : small integers, quarters, uniform, or close to one of the ends.
	float real(double lo, double hi)
	{
		double v;
		switch (draw(7))
		{
		case 0: case 1: { v = (double)draw(16); if (draw(1)) v = -v; break; }
		case 2: { v = (double)draw(64) * 0.25; if (draw(1)) v = -v; break; }
		case 3: { double e = uni(-12, 6); v = std::exp2(e); if (draw(1)) v = -v; break; }
		default: v = uni(lo, hi);
		}
		if (v < lo || v > hi) v = uni(lo, hi);
		return (float)v;
	}
	float raw() { uint32_t b = (uint32_t)draw(0xffffffffu); float f; memcpy(&f, &b, 4); return f; }
	// Any non-NaN float, with the special values over-represented. inf = allow infinities.
	float anyFloat(bool inf = true)
	{
		for (int i = 0; i < 8; i++)
		{
			float v;
			switch (draw(9))
			{
			case 0: v = (float)irange(-8, 8); break;
			case 1: v = (float)(irange(-64, 64) * 0.25); break;
			case 2: v = pick({ 0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 1.5f, -1.5f, 2.5f, -2.5f, FLT_MIN, -FLT_MIN, FLT_MAX,
				-FLT_MAX, FLT_EPSILON, 1e-45f, -1e-45f, INFINITY, -INFINITY, 8388608.0f, -8388608.0f, 8388607.5f,
				16777216.0f, 0.99999994f, 1.0000001f, -1.0000001f, 1.00005f, 3.14159274f, -3.14159274f, 1.57079637f, -1.57079637f, 6.28318548f, 255.0f, 2147483648.0f, -2147483648.0f, 4294967296.0f, 0.49999997f, -0.49999997f }); break;
			case 3: case 4: { double e = uni(-40, 40); v = (float)std::exp2(e); if (draw(1)) v = -v; break; }
			case 5: v = (float)uni(-10, 10); break;
			case 6: v = (float)uni(-1000, 1000); break;
			case 7: v = (float)uni(-1, 1); break;
			default: v = raw();
			}
			if (v != v || (!inf && std::isinf(v))) continue;
			return v;
		}
		return 0.0f;
	}
	uint32_t anyU32()
	{
		switch (draw(5))
		{
		case 0: return (uint32_t)draw(draw(1) ? 16 : 80);
		case 1: return (uint32_t)(0u - draw(16));
		case 2: return (uint32_t)(0x80000000u + (uint32_t)irange(-8, 8));
		case 3: return (uint32_t)((1ull << draw(32)) + (u64)irange(-1, 1));
		default: return (uint32_t)draw(0xffffffffu);
		}
	}
	int32_t anyI32() { return (int32_t)anyU32(); }
};

struct Known { std::string property, key; };
inline std::vector<std::string>& knownKeys() { static std::vector<std::string> v; return v; }

class Case
{
public:
	Shared* sh; Src& s; bool nontriv = true; std::vector<u64> knownHit;
	Case(Shared* sh, Src& s) : sh(sh), s(s) { }
	void cls(const char* name)
	{
		for (u64 i = 0; i < sh->classes; i++) if (!strcmp(sh->className[i], name)) { sh->classCount[i]++; return; }
		if (sh->classes < 64) { strncpy(sh->className[sh->classes], name, 47); sh->classCount[sh->classes++] = 1; }
	}
	void trivialIf(bool t) { if (t) nontriv = false; }
	void assume(bool b) { if (!b) throw Discard(); }
	void fail(const std::string& m) { throw Fail{ m }; }
	void check(bool b, const char* f, ...)
	{
		if (b) return;
		char buf[2048]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
		throw Fail{ buf };
	}
	// A failing case which a committed known-findings entry describes is counted, not reported.
	bool known(const char* key)
	{
		auto& k = knownKeys();
		for (size_t i = 0; i < k.size() && i < 32; i++) if (k[i] == key) { sh->knownCount[i]++; return true; }
		return false;
	}
	static bool same(float a, float b) { return (a == b) || (a != a && b != b); }
	void eqf(double got, double want, const char* what)
	{
		if (!(got == want || (got != got && want != want)))
			throw Fail{ fmt("%s: got %.9g, expected %.9g", what, got, want) };
	}
	void equ(u64 got, u64 want, const char* what)
	{
		if (got != want) throw Fail{ fmt("%s: got %llu (0x%llx), expected %llu (0x%llx)", what, (unsigned long long)got,
			(unsigned long long)got, (unsigned long long)want, (unsigned long long)want) };
	}
	void eqi(long long got, long long want, const char* what)
	{
		if (got != want) throw Fail{ fmt("%s: got %lld, expected %lld", what, got, want) };
	}
	// The largest error relative to its tolerance is evidence. With PBT_RATIOS it is listed per comparison, to judge tolerances.
	void ratio(double e, double tol, [[maybe_unused]] const char* what)
	{
		if (tol > 0 && e / tol > s.maxErr) s.maxErr = e / tol;
#ifdef PBT_RATIOS
		auto& m = ratios()[what]; double q = tol > 0 ? e / tol : e > 0 ? INFINITY : 0; if (q > m) m = q;
#endif
	}
	static std::map<std::string, double>& ratios() { static std::map<std::string, double> m; return m; }
	// |got - want| <= tol; infinities and NaN must match exactly.
	void near(double got, double want, double tol, const char* what)
	{
		if (got == want || (got != got && want != want)) return;
		double e = std::fabs(got - want);
		ratio(e, tol, what);
		if (!(e <= tol)) throw Fail{ fmt("%s: got %.9g, expected %.9g (error %.3g > tolerance %.3g)", what, got, want, e, tol) };
	}
};

struct Law { const char* name; double weight; const char* rule; void (*fn)(Src&, Case&); };
inline std::vector<Law>& laws() { static std::vector<Law> v; return v; }
struct Reg { Reg(const char* n, double w, const char* r, void (*f)(Src&, Case&)) { laws().push_back({ n, w, r, f }); } };

// LAW(name, weight, rule): weight scales the number of cases; rule says when a case counts as non-trivial.
#define LAW(name, weight, rule) \
	static void law_##name(pbt::Src& s, pbt::Case& c); \
	static pbt::Reg reg_##name(#name, weight, rule, law_##name); \
	static void law_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)

enum Outcome { PASS, DISCARD, FAIL };
__attribute__((noinline)) inline Outcome runCase(const Law& l, Src& s, Case& c, std::string& msg)
{
	try { l.fn(s, c); return PASS; }
	catch (Discard&) { return DISCARD; }
	catch (Fail& f) { msg = f.msg; return FAIL; }
	catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAIL; }
}

inline Shared* newShared()
{
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
	return (Shared*)p;
}
inline void armCpuLimit(int seconds)
{
	itimerval t{}; t.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &t, nullptr);
}
inline std::string jsonEscape(const std::string& s)
{
	std::string r;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch);
		else r += (char)ch;
	}
	return r;
}
inline std::string readTail(const std::string& path, size_t maxLen = 1500)
{
	FILE* f = fopen(path.c_str(), "rb"); if (!f) return "";
	std::string t; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0 && t.size() < 60000) t.append(b, n);
	fclose(f);
	return t.size() > maxLen ? t.substr(0, maxLen) : t;
}
inline std::string crashText(int st, const std::string& errFile)
{
	std::string m;
	if (WIFSIGNALED(st))
		m = WTERMSIG(st) == SIGPROF ? std::string("hang: one case used more than its CPU limit") : fmt("crash: signal %d", WTERMSIG(st));
	else m = fmt("crash: exit status %d (sanitizer report or abort)", WEXITSTATUS(st));
	return m + "\n" + readTail(errFile);
}

struct Result
{
	std::string msg, trace; std::vector<u64> choices; std::vector<std::vector<u64>> warm; bool failed = false; u64 evals = 0, discarded = 0, nontrivial = 0, distinct = 0;
	u64 failCase = 0; int shrinkSteps = 0;
	std::map<std::string, u64> classes; std::vector<u64> known; std::vector<std::string> samples; double maxErr = 0;
};

// Runs one choice sequence in a child process, after others that only set the scene. Returns true if it fails.
typedef std::vector<std::vector<u64>> Seqs;
inline bool replayOnce(const Law& l, const Seqs& warm, const std::vector<u64>& ch, Shared* sh, const std::string& errFile, std::string& msg,
	std::string* trace, std::vector<u64>* normalised, int cpu)
{
	sh->status = 0; sh->msg[0] = 0; sh->trace[0] = 0; *(volatile u64*)&sh->count = 0;
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0)
	{
		int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
		rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		armCpuLimit(cpu);
		for (auto& w : warm) { Src s(w.data(), w.size(), sh->choice, &sh->count); Case c(sh, s); std::string m; runCase(l, s, c, m); }
		Src s(ch.data(), ch.size(), sh->choice, &sh->count); s.verbose = true; s.traceBuf = sh->trace;
		Case c(sh, s);
		std::string m; Outcome o = runCase(l, s, c, m);
		if (o == FAIL) { strncpy(sh->msg, m.c_str(), sizeof sh->msg - 1); sh->status = 2; }
		else sh->status = o == DISCARD ? 3 : 1;
		strncpy(sh->trace, s.trace.c_str(), sizeof sh->trace - 1);
		_exit(0);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	if (normalised) normalised->assign(sh->choice, sh->choice + sh->count);
	if (trace) *trace = sh->trace;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 2) { msg = sh->msg; return true; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	msg = crashText(st, errFile);
	return true;
}

// Shrinks one sequence: the failing one, or (part >= 0) one of those before it.
inline void shrink(const Law& l, Seqs& warm, std::vector<u64>& last, std::string& msg, Shared* sh, const std::string& errFile, int& steps, double budget, int part = -1)
{
	std::vector<u64> best = part < 0 ? last : warm[part]; int base = steps; struct Back { std::vector<u64>&from, &to; ~Back() { to = from; } } back{ best, part < 0 ? last : warm[part] };
	timeval t0; gettimeofday(&t0, nullptr);
	auto over = [&] { timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6 > budget || steps - base > 6000; };
	auto attempt = [&](const std::vector<u64>& cand)
	{
		if (cand == best) return false;
		steps++;
		std::string m; std::vector<u64> norm;
		if (part >= 0) { Seqs w = warm; w[part] = cand; if (!replayOnce(l, w, last, sh, errFile, m, nullptr, nullptr, 20)) return false; norm = cand; }
		else if (!replayOnce(l, warm, cand, sh, errFile, m, nullptr, &norm, 20)) return false;
		if (m.compare(0, 4, "hang") == 0 && msg.compare(0, 4, "hang") != 0) return false;
		std::vector<u64> n = norm.size() <= cand.size() ? norm : cand;
		best = n; msg = m; return true;
	};
	bool hang = msg.compare(0, 4, "hang") == 0;
	if (hang) return; // each attempt would cost the whole CPU limit
	bool improved = true;
	while (improved && !over())
	{
		improved = false;
		for (size_t len : { (size_t)64, (size_t)32, (size_t)16, (size_t)8, (size_t)7, (size_t)6, (size_t)5, (size_t)4, (size_t)3, (size_t)2, (size_t)1 })
			for (size_t i = best.size(); i-- > 0 && !over();)
			{
				if (i + len > best.size()) continue;
				auto cnd = best; cnd.erase(cnd.begin() + i, cnd.begin() + i + len);
				if (attempt(cnd)) { improved = true; continue; }
				// also try with a smaller earlier count
				if (i > 0 && len <= 8 && best[i - 1] > 0) { cnd[i - 1]--; if (attempt(cnd)) { improved = true; } }
			}
		for (size_t i = 0; i < best.size() && !over(); i++)
		{
			if (best[i] == 0) continue;
			auto cnd = best; cnd[i] = 0;
			if (attempt(cnd)) { improved = true; continue; }
			u64 lo = 0, hi = best[i]; // binary search for the least failing value, assuming monotony
			int guard = 0;
			while (lo + 1 < hi && guard++ < 40 && !over())
			{
				u64 mid = lo + (hi - lo) / 2; cnd = best; if (i >= cnd.size()) break; cnd[i] = mid;
				if (attempt(cnd)) { hi = mid; improved = true; } else lo = mid;
			}
			if (i < best.size() && best[i] > 0) { cnd = best; cnd[i]--; if (attempt(cnd)) improved = true; }
		}
		for (size_t i = 0; i + 1 < best.size() && !over(); i++) // lower duplicated values together
		{
			if (best[i] == 0) continue;
			auto cnd = best; bool any = false; u64 v = best[i];
			for (size_t j = i + 1; j < cnd.size(); j++) if (cnd[j] == v) { cnd[j] = 0; any = true; }
			if (any) { cnd[i] = 0; if (attempt(cnd)) improved = true; }
		}
	}
}

// Case i, and for one in four its neighbour too.
template<class F> inline void runIndex(const Law& l, u64 base, u64 i, Shared* S, F f)
{
	S->stage = 0; if ((S->done & 63) == 0) armCpuLimit(20);
	u64 cs = base + i * 0xD1342543DE82EF95ull; splitmix(cs); u64 r = cs ^ 0x5851F42D4C957F2Dull; r = splitmix(r); std::vector<u64> first;
	{ Src s(cs, S->choice, &S->count); Case c(S, s); std::string m; Outcome o = runCase(l, s, c, m); f(s, c, o, m); if (o != PASS || r % 4) return; first.assign(S->choice, S->choice + S->count); }
	S->stage = 1; Src s(first, r, S->choice, &S->count); Case c(S, s); std::string m; Outcome o = runCase(l, s, c, m); f(s, c, o, m);
}
// The choices of case i and of those the same worker ran before it, up to the one (case or neighbour) that fails.
inline Seqs window(const Law& l, u64 base, u64 i, u64 stage, int workers, u64 most, const std::string& file)
{
	fflush(stdout); fflush(stderr); pid_t p = fork();
	if (p == 0)
	{
		int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); armCpuLimit(60); FILE* o = fopen(file.c_str(), "w"); if (!o) _exit(1); Shared* S = newShared(); u64 k = std::min(most, i / (u64)workers);
		for (u64 j = i - k * workers; j <= i; j += workers) runIndex(l, base, j, S, [&](Src&, Case&, Outcome, const std::string&) { if (j == i && S->stage >= stage) return; for (u64 q = 0; q < S->count; q++) fprintf(o, "%llu ", (unsigned long long)S->choice[q]); fprintf(o, "|\n"); fflush(o); });
		fclose(o); _exit(0);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	Seqs r; std::vector<u64> cur; FILE* o = fopen(file.c_str(), "r"); if (!o) return r; char tok[64];
	while (fscanf(o, "%63s", tok) == 1) if (tok[0] == '|') { r.push_back(cur); cur.clear(); } else cur.push_back(strtoull(tok, nullptr, 10));
	fclose(o); return r;
}
// Reproduces a failure that takes what earlier cases of the worker left behind, and drops those which are not needed.
inline bool withHistory(const Law& l, Result& r, u64 base, u64 stage, int workers, Shared* S, const std::string& ef)
{
	std::string m; timeval t0; gettimeofday(&t0, nullptr); auto spent = [&] { timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6; };
	for (u64 most : { (u64)0, (u64)4, (u64)64, (u64)1024, (u64)20000 })
	{
		Seqs w = window(l, base, r.failCase, stage, workers, most, ef + ".w"); if (w.empty() || spent() > 40) continue;
		if (!replayOnce(l, w, r.choices, S, ef, m, nullptr, nullptr, 60)) continue;
		for (size_t n = w.size(); n; n = n > 1 ? (n + 1) / 2 : 0) for (size_t i = w.size(); i > 0 && spent() < 40;)
		{
			size_t a = i > n ? i - n : 0; Seqs c = w; c.erase(c.begin() + a, c.begin() + i); std::string m2; if (replayOnce(l, c, r.choices, S, ef, m2, nullptr, nullptr, 60)) { w = c; m = m2; } i = a;
		}
		r.warm = w; r.msg = m; return true;
	}
	return false;
}
inline Result runLaw(const Law& l, u64 seed, u64 cases, int workers, const std::string& tmp)
{
	Result r; r.known.assign(knownKeys().size(), 0);
	std::vector<Shared*> sh(workers); std::vector<pid_t> pid(workers); std::vector<int> pfd(workers);
	for (int w = 0; w < workers; w++) sh[w] = newShared();
	u64 base = seed * 0x9E3779B97F4A7C15ull ^ hashStr(l.name);
	fflush(stdout); fflush(stderr);
	for (int w = 0; w < workers; w++)
	{
		int fds[2]; if (pipe(fds)) { perror("pipe"); exit(97); }
		pid[w] = fork();
		if (pid[w] == 0)
		{
			close(fds[0]);
			std::string ef = tmp + fmt("/w%d.err", w);
			int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
			rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			Shared* S = sh[w]; std::vector<u64> hashes; double maxErr = 0;
#ifdef PBT_RATIOS
			Case::ratios().clear();
#endif
			for (u64 i = w; i < cases; i += workers)
			{
				S->caseIndex = i;
				runIndex(l, base, i, S, [&](Src& s, Case& c, Outcome o, const std::string& m)
				{
					S->done++; if (s.maxErr > maxErr && o == PASS) maxErr = s.maxErr;
					if (o == FAIL) { strncpy(S->msg, m.c_str(), sizeof S->msg - 1); S->status = 2; return; }
					if (o == DISCARD) { S->discarded++; return; }
					if (c.nontriv)
					{
						S->nontrivial++; u64 h = 1469598103934665603ull;
						for (u64 k = 0; k < S->count; k++) { h ^= S->choice[k]; h *= 1099511628211ull; h ^= h >> 29; }
						if (hashes.size() < 4000000) hashes.push_back(h);
					}
				});
				if (S->status == 2) break;
			}
			if (S->status == 0) S->status = 1;
			std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
#ifdef PBT_RATIOS
			if (FILE* rf = fopen(PBT_RATIOS, "a")) { std::string t; for (auto& k : Case::ratios()) t += std::string(l.name) + "\t" + k.first + fmt("\t%.3g\n", k.second); fwrite(t.data(), 1, t.size(), rf); fclose(rf); }
#endif
			FILE* f = fdopen(fds[1], "wb"); fwrite(&maxErr, 8, 1, f);
			fwrite(hashes.data(), 8, hashes.size(), f); fclose(f);
			_exit(0);
		}
		close(fds[1]); pfd[w] = fds[0];
	}
	std::unordered_set<u64> distinct; int failing = -1; std::string failMsg;
	for (int w = 0; w < workers; w++)
	{
		double me = 0; std::vector<u64> buf; char tmpb[1 << 16]; std::string raw; ssize_t n;
		while ((n = read(pfd[w], tmpb, sizeof tmpb)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) raw.append(tmpb, n);
		close(pfd[w]);
		int st = 0; while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR) { }
		if (raw.size() >= 8)
		{
			memcpy(&me, raw.data(), 8); if (me > r.maxErr) r.maxErr = me;
			for (size_t i = 8; i + 8 <= raw.size(); i += 8) { u64 h; memcpy(&h, raw.data() + i, 8); distinct.insert(h); }
		}
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->status == 1;
		r.evals += sh[w]->done; r.discarded += sh[w]->discarded; r.nontrivial += sh[w]->nontrivial;
		for (u64 i = 0; i < sh[w]->classes; i++) r.classes[sh[w]->className[i]] += sh[w]->classCount[i];
		for (size_t i = 0; i < r.known.size() && i < 32; i++) r.known[i] += sh[w]->knownCount[i];
		if (!ok)
		{
			std::string m = sh[w]->status == 2 ? std::string(sh[w]->msg) : crashText(st, tmp + fmt("/w%d.err", w));
			if (failing < 0 || sh[w]->caseIndex < sh[failing]->caseIndex) { failing = w; failMsg = m; }
		}
	}
	r.distinct = distinct.size();
	Shared* S = newShared(); std::string ef = tmp + "/replay.err";
	if (failing >= 0)
	{
		r.failed = true; r.failCase = sh[failing]->caseIndex; r.msg = failMsg;
		r.choices.assign(sh[failing]->choice, sh[failing]->choice + sh[failing]->count);
		std::vector<u64> orig = r.choices; std::string m;
		bool alone = replayOnce(l, r.warm, r.choices, S, ef, m, nullptr, nullptr, 15); if (alone) r.msg = m;
		if (alone || withHistory(l, r, base, sh[failing]->stage, workers, S, ef))
		{
			shrink(l, r.warm, r.choices, r.msg, S, ef, r.shrinkSteps, 8); if (r.warm.size() <= 3) for (size_t k = 0; k < r.warm.size(); k++) shrink(l, r.warm, r.choices, r.msg, S, ef, r.shrinkSteps, 4, (int)k);
			if (!r.warm.empty()) r.msg += fmt(" [only after %zu earlier case%s in the same process: something is remembered]", r.warm.size(), r.warm.size() > 1 ? "s" : "");
		}
		replayOnce(l, r.warm, r.choices, S, ef, m, &r.trace, nullptr, 60);
	}
	else // three samples, described
		for (u64 i = 0, got = 0; i < 40 && got < 3; i++)
		{
			u64 cs = base + i * 0xD1342543DE82EF95ull; splitmix(cs);
			Src s(cs, S->choice, &S->count); s.verbose = true; Case c(S, s); std::string m;
			if (runCase(l, s, c, m) == PASS && c.nontriv) { r.samples.push_back(s.trace.substr(0, 300)); got++; }
		}
	munmap(S, sizeof *S);
	for (auto p : sh) munmap(p, sizeof(Shared));
	return r;
}

#ifndef PBT_LIBFUZZER
inline int mainImpl(int argc, char** argv)
{
	u64 seed = 1; double cases = 20000; int workers = 4; std::string out, replay, only, tmp = "/tmp", bytes;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 0);
		else if (a == "--cases") cases = atof(v.c_str());
		else if (a == "--workers") workers = atoi(v.c_str());
		else if (a == "--out") out = v;
		else if (a == "--replay") replay = v; // file: law name, then the choices
		else if (a == "--bytes") bytes = v; // an input of the libFuzzer build of this harness
		else if (a == "--law") only = v;
		else if (a == "--tmp") tmp = v;
		else if (a == "--known") { std::string k; for (char ch : v + ",") { if (ch == ',') { if (!k.empty()) knownKeys().push_back(k); k.clear(); } else k += ch; } }
	}
	if (!replay.empty())
	{
		FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 97; }
		char name[256]; if (fscanf(f, "%255s", name) != 1) return 97;
		std::vector<u64> ch; Seqs warm; char tok[64]; while (fscanf(f, "%63s", tok) == 1) if (tok[0] == '|') { warm.push_back(ch); ch.clear(); } else ch.push_back(strtoull(tok, nullptr, 10));
		fclose(f);
		for (auto& l : laws()) if (!strcmp(l.name, name))
		{
			Shared* S = newShared(); std::string m, t;
			bool bad = replayOnce(l, warm, ch, S, tmp + "/replay.err", m, &t, nullptr, 60);
			printf("%s %s\n  input: %s\n  %s\n", bad ? "FAIL" : "PASS", name, t.c_str(), m.c_str());
			return bad ? 1 : 0;
		}
		fprintf(stderr, "no law %s\n", name); return 97;
	}
	std::vector<u64> byteChoices; int byteLaw = -1;
	if (!bytes.empty())
	{
		FILE* f = fopen(bytes.c_str(), "rb"); if (!f) return 97;
		std::vector<uint8_t> d(1 << 20); d.resize(fread(d.data(), 1, d.size(), f)); fclose(f); if (d.empty()) return 0;
		byteLaw = d[0] % laws().size(); Shared* S = newShared(); fflush(stdout); pid_t p = fork();
		if (p == 0)
		{
			int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); armCpuLimit(15);
			Src s(d.data() + 1, d.size() - 1, S->choice, &S->count); Case c(S, s); std::string m; runCase(laws()[byteLaw], s, c, m); _exit(0);
		}
		int st; waitpid(p, &st, 0); byteChoices.assign(S->choice, S->choice + S->count);
	}
	std::string js = "["; bool first = true, anyFail = false;
	timeval start; gettimeofday(&start, nullptr);
	for (auto& l : laws())
	{
		if (!only.empty() && only != l.name) continue;
		timeval now; gettimeofday(&now, nullptr); if (anyFail && now.tv_sec - start.tv_sec > 120) break; // enough to report
		u64 n = (u64)std::max(1.0, cases * l.weight);
		timeval a, b; gettimeofday(&a, nullptr);
		Result r;
		if (byteLaw >= 0)
		{
			if (&l != &laws()[byteLaw]) continue;
			Shared* S = newShared(); std::string ef = tmp + "/replay.err"; r.known.assign(knownKeys().size(), 0); r.choices = byteChoices;
			r.failed = replayOnce(l, r.warm, r.choices, S, ef, r.msg, &r.trace, nullptr, 15); r.evals = 1;
			if (r.failed) { std::string m; shrink(l, r.warm, r.choices, r.msg, S, ef, r.shrinkSteps, 25); replayOnce(l, r.warm, r.choices, S, ef, m, &r.trace, nullptr, 15); }
		}
		else r = runLaw(l, seed, n, workers, tmp);
		gettimeofday(&b, nullptr);
		anyFail |= r.failed;
		js += first ? "\n" : ",\n"; first = false;
		js += fmt("{\"law\":\"%s\",\"evaluations\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"wall\":%.2f,\"max_err_ratio\":%.4g,",
			l.name, (unsigned long long)r.evals, (unsigned long long)r.discarded, (unsigned long long)r.nontrivial,
			(unsigned long long)r.distinct, (b.tv_sec - a.tv_sec) + (b.tv_usec - a.tv_usec) * 1e-6, std::isfinite(r.maxErr) ? r.maxErr : -1.0);
		js += "\"rule\":\"" + jsonEscape(l.rule) + "\",\"classes\":{";
		bool f2 = true; for (auto& k : r.classes) { if (!f2) js += ","; f2 = false; js += fmt("\"%s\":%llu", jsonEscape(k.first).c_str(), (unsigned long long)k.second); }
		js += "},\"known\":{"; f2 = true;
		for (size_t i = 0; i < r.known.size(); i++) if (r.known[i]) { if (!f2) js += ","; f2 = false; js += fmt("\"%s\":%llu", knownKeys()[i].c_str(), (unsigned long long)r.known[i]); }
		js += "},\"samples\":["; f2 = true;
		for (auto& k : r.samples) { if (!f2) js += ","; f2 = false; js += "\"" + jsonEscape(k) + "\""; }
		js += "]";
		if (r.failed)
		{
			js += ",\"fail\":{\"case\":" + fmt("%llu", (unsigned long long)r.failCase) + ",\"message\":\"" + jsonEscape(r.msg) + "\",\"input\":\"" + jsonEscape(r.trace) + "\",\"shrink_steps\":" + fmt("%d", r.shrinkSteps) + ",\"choices\":[";
			for (size_t i = 0; i < r.choices.size(); i++) js += fmt("%s%llu", i ? "," : "", (unsigned long long)r.choices[i]);
			js += "],\"warm\":["; for (size_t k = 0; k < r.warm.size(); k++) { js += k ? ",[" : "["; for (size_t i = 0; i < r.warm[k].size(); i++) js += fmt("%s%llu", i ? "," : "", (unsigned long long)r.warm[k][i]); js += "]"; }
			js += "]}";
		}
		js += "}";
	}
	js += "\n]\n";
	if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 97; } fwrite(js.data(), 1, js.size(), f); fclose(f); }
	else fwrite(js.data(), 1, js.size(), stdout);
	return anyFail ? 1 : 0;
}
#define PBT_MAIN() int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#else
// Coverage-guided driver: first byte selects the law, the others are the choices. A failure leaves a replay file.
inline int fuzzOne(const uint8_t* d, size_t n)
{
	static Shared* S = newShared(); static bool init = false;
	if (!init)
	{
		init = true;
		if (const char* k = getenv("PBT_KNOWN")) { std::string v = k, t; for (char ch : v + ",") { if (ch == ',') { if (!t.empty()) knownKeys().push_back(t); t.clear(); } else t += ch; } }
	}
	if (n < 1) return 0;
	auto& l = laws()[d[0] % laws().size()];
	Src s(d + 1, n - 1, S->choice, &S->count); Case c(S, s); std::string m;
	// The replay file is written before the case runs to its end, so that a crash leaves it too.
	if (runCase(l, s, c, m) == FAIL) { fprintf(stderr, "PBT-FAIL %s: %s\n", l.name, m.c_str()); abort(); }
	return 0;
}
#define PBT_MAIN() extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return pbt::fuzzOne(d, n); }
#endif

} // namespace pbt
