#include "pbt.hpp"
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static constexpr size_t TAPE_MAX = 1u << 20;
static constexpr size_t HASH_SLOTS = 1u << 18;
static constexpr size_t LABELS = 160;
static constexpr size_t SAMPLES = 4;

struct Shared {
	volatile uint64_t case_idx;
	volatile uint64_t evaluations;
	volatile uint64_t nontrivial;
	volatile uint64_t distinct;
	volatile uint64_t excluded;
	volatile uint32_t tape_len;
	volatile uint32_t status;      // 0 running, 1 failed, 2 done
	char sig[256];
	char msg[8192];
	struct { char name[48]; uint64_t count; } labels[LABELS];
	uint32_t nsamples;
	uint64_t sample_skip;
	char samples[SAMPLES][1500];
	uint64_t hashes[HASH_SLOTS];
	uint64_t tape[TAPE_MAX];
	volatile uint64_t t_start_ms;
};

static Shared* S;
static bool g_quiet = false;      // replaying/shrinking: do not classify
static bool g_sample_taken = false;
static unsigned g_cpu_limit_s = 20;
static bool g_no_shrink = false;

std::string fmt(const char* f, ...)
{
	char buf[6000];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	return buf;
}
void fail(const std::string& sig, const std::string& msg) { throw Failure(sig, msg); }

static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
void register_prop(const Prop& p) { props().push_back(p); }

static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t Gen::rng() {
	// xoroshiro128+
	const uint64_t s0 = m_s[0]; uint64_t s1 = m_s[1];
	const uint64_t r = s0 + s1;
	s1 ^= s0;
	m_s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
	m_s[1] = (s1 << 37) | (s1 >> 27);
	return r;
}
uint64_t Gen::draw(uint64_t max)
{
	uint64_t v;
	if (m_replay) {
		v = (m_pos < S->tape_len) ? S->tape[m_pos] : 0;
		if (v > max) v = max;
		if (m_pos < TAPE_MAX) S->tape[m_pos] = v;
		m_pos++;
		return v;
	}
	if (max == ~0ull) v = rng();
	else v = (uint64_t)(((unsigned __int128)rng() * (max + 1)) >> 64);
	if (m_pos < TAPE_MAX) {
		S->tape[m_pos++] = v;
		S->tape_len = m_pos;
	} else {
		// Out of tape: behave as a zero tape (keeps replay exact)
		return 0;
	}
	return v;
}
uint64_t Gen::u64()
{
	static const uint64_t pool[] = {
		0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 4095, 4096,
		0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff,
		0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001,
		0xffffffffffffffff, 0xfffffffffffffffe, 0xffffffff80000000, 0xffffffff7fffffff,
		0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x0123456789abcdef, 0xfedcba9876543210,
		0x8080808080808080, 0x7f7f7f7f7f7f7f7f, 0x8000800080008000, 0x00ff00ff00ff00ff,
	};
	switch (draw(5)) {
	case 0: return pool[draw(sizeof(pool)/sizeof(pool[0]) - 1)];
	case 1: return draw(~0ull);
	case 2: return draw(0xffffffff);
	case 3: return (uint64_t)(int64_t)(int32_t)draw(0xffffffff);
	case 4: { uint64_t b = draw(63); return (1ull << b) + (uint64_t)(int64_t)(int)(draw(4)) - 2; }
	default: { uint64_t n = draw(63); return draw(~0ull) >> n; }
	}
}
size_t Gen::weighted(std::initializer_list<unsigned> w)
{
	unsigned tot = 0; for (auto x : w) tot += x;
	uint64_t r = draw(tot - 1);
	size_t i = 0;
	for (auto x : w) { if (r < x) return i; r -= x; i++; }
	return w.size() - 1;
}
std::string Gen::bytes(size_t n)
{
	std::string s(n, 0);
	for (size_t i = 0; i < n; i += 8) {
		uint64_t v = draw(~0ull);
		memcpy(&s[i], &v, std::min<size_t>(8, n - i));
	}
	return s;
}
void Gen::label(const char* name)
{
	if (g_quiet) return;
	for (size_t i = 0; i < LABELS; i++) {
		if (S->labels[i].name[0] == 0) {
			snprintf(S->labels[i].name, sizeof(S->labels[i].name), "%s", name);
			S->labels[i].count = 1;
			return;
		}
		if (strncmp(S->labels[i].name, name, 47) == 0) { S->labels[i].count++; return; }
	}
}
void Gen::nontrivial(uint64_t h)
{
	if (g_quiet) return;
	S->nontrivial = S->nontrivial + 1;
	if (h == 0) h = 1;
	size_t i = (size_t)mix(h, 12345) & (HASH_SLOTS - 1);
	for (size_t n = 0; n < 64; n++, i = (i + 1) & (HASH_SLOTS - 1)) {
		if (S->hashes[i] == h) return;
		if (S->hashes[i] == 0) { S->hashes[i] = h; S->distinct = S->distinct + 1; return; }
	}
}
bool Gen::want_sample() const
{
	if (g_quiet || S->nsamples >= SAMPLES || g_sample_taken) return false;
	return S->evaluations >= S->sample_skip;
}
void Gen::sample(const std::string& s)
{
	if (!want_sample()) return;
	snprintf(S->samples[S->nsamples], sizeof(S->samples[0]), "%s", s.c_str());
	S->nsamples++;
	S->sample_skip = S->evaluations * 7 + 11;
	g_sample_taken = true;
}

static void arm_watchdog()
{
	struct itimerval tv = {};
	tv.it_value.tv_sec = g_cpu_limit_s;
	setitimer(ITIMER_PROF, &tv, nullptr);
	tv.it_value.tv_sec = 300;    // wall clock, for a case blocked without using CPU
	setitimer(ITIMER_REAL, &tv, nullptr);
}

static void run_case(const Prop& p, Gen& g)
{
	arm_watchdog();
	try {
		p.fn(g);
	} catch (const Failure& f) {
		snprintf(S->sig, sizeof(S->sig), "%s", f.sig.c_str());
		snprintf(S->msg, sizeof(S->msg), "%s", f.msg.c_str());
		S->status = 1;
		return;
	} catch (const std::exception& e) {
		snprintf(S->sig, sizeof(S->sig), "unexpected-exception");
		snprintf(S->msg, sizeof(S->msg), "unexpected exception escaped: %s", e.what());
		S->status = 1;
		return;
	} catch (...) {
		snprintf(S->sig, sizeof(S->sig), "unexpected-exception");
		snprintf(S->msg, sizeof(S->msg), "unexpected non-std exception escaped");
		S->status = 1;
		return;
	}
}

static void child_setup(const char* errlog)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	int fd = open(errlog, O_CREAT | O_WRONLY | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	// Memory mapped from here on lies below an inaccessible region, so that
	// writes past its end are noticed instead of hitting other mappings.
	mmap(nullptr, 1ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static std::string summarize_crash(const char* errlog, int wstatus)
{
	std::string out;
	if (WIFSIGNALED(wstatus)) {
		if (WTERMSIG(wstatus) == SIGPROF || WTERMSIG(wstatus) == SIGALRM) out = "case did not finish within its CPU limit (hang)";
		else out = fmt("host process killed by signal %d", WTERMSIG(wstatus));
	} else out = fmt("host process exited with status %d", WEXITSTATUS(wstatus));
	FILE* f = fopen(errlog, "r");
	if (f) {
		char line[512]; int n = 0; bool on = false;
		while (fgets(line, sizeof(line), f) && n < 12) {
			if (strstr(line, "ERROR: ") || strstr(line, "runtime error") || strstr(line, "WARNING: ThreadSanitizer") || strstr(line, "terminate called")) on = true;
			if (on) { out += "\n    "; out += line; while (!out.empty() && out.back() == '\n') out.pop_back(); n++; }
		}
		fclose(f);
	}
	return out;
}

// Classify a crash for known-finding matching
static std::string crash_sig(int wstatus)
{
	if (WIFSIGNALED(wstatus) && (WTERMSIG(wstatus) == SIGPROF || WTERMSIG(wstatus) == SIGALRM)) return "hang";
	return "crash";
}

// Run one tape in a forked child.  Returns true if it failed.
static bool try_tape(const Prop& p, const std::vector<uint64_t>& tape, const char* errlog,
	std::string* sig, std::string* msg, std::vector<uint64_t>* norm)
{
	size_t n = std::min(tape.size(), TAPE_MAX);
	std::copy(tape.begin(), tape.begin() + n, (uint64_t*)S->tape);
	S->tape_len = n;
	S->status = 0; S->sig[0] = 0; S->msg[0] = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(errlog);
		g_quiet = true;
		Gen g; g.m_replay = true;
		run_case(p, g);
		S->tape_len = std::min(g.m_pos, TAPE_MAX);
		if (S->status == 1) _exit(0);
		S->status = 2;
		// flush sanitizer state and leave
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	bool failed = false;
	if (S->status == 1) {
		failed = true;
		if (sig) *sig = S->sig;
		if (msg) *msg = S->msg;
	} else if (S->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		failed = false;
	} else {
		failed = true;
		if (sig) *sig = crash_sig(st);
		if (msg) *msg = summarize_crash(errlog, st);
	}
	if (norm) {
		size_t len = std::min<size_t>(S->tape_len, n);
		norm->assign((uint64_t*)S->tape, (uint64_t*)S->tape + len);
	}
	return failed;
}

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> tape, const char* errlog, const std::string& sig)
{
	const double deadline = now_s() + (g_no_shrink ? 0 : sig == "hang" ? 20 : 45);
	unsigned budget = 6000;
	auto ok = [&](const std::vector<uint64_t>& t) {
		if (budget == 0 || now_s() > deadline) return false;
		budget--;
		std::string s, m; std::vector<uint64_t> n;
		if (!try_tape(p, t, errlog, &s, &m, &n)) return false;
		if (s != sig) return false;
		return true;
	};
	// trim unread tail / truncate
	for (size_t keep = tape.size() / 2; keep > 0; keep /= 2) {
		std::vector<uint64_t> t(tape.begin(), tape.begin() + (tape.size() - keep));
		if (ok(t)) { tape = t; keep = tape.size(); }
		if (budget == 0 || now_s() > deadline) break;
	}
	bool progress = true;
	while (progress && budget && now_s() < deadline) {
		progress = false;
		for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
			for (size_t i = 0; i + k <= tape.size() && budget && now_s() < deadline; ) {
				std::vector<uint64_t> t(tape);
				t.erase(t.begin() + i, t.begin() + i + k);
				if (ok(t)) { tape = t; progress = true; } else i += std::max<size_t>(1, k / 2);
			}
		}
		for (size_t k : {32, 8, 2, 1}) {
			for (size_t i = 0; i + k <= tape.size() && budget && now_s() < deadline; i += k) {
				bool zero = true;
				for (size_t j = 0; j < k; j++) if (tape[i + j]) zero = false;
				if (zero) continue;
				std::vector<uint64_t> t(tape);
				std::fill(t.begin() + i, t.begin() + i + k, 0);
				if (ok(t)) { tape = t; progress = true; }
			}
		}
		for (size_t i = 0; i < tape.size() && budget && now_s() < deadline; i++) {
			uint64_t lo = 0, hi = tape[i];
			int steps = 0;
			while (lo < hi && budget && steps++ < 12) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> t(tape);
				t[i] = mid;
				if (ok(t)) { tape = t; hi = mid; progress = true; }
				else lo = mid + 1;
			}
			if (tape[i] > 0) {
				std::vector<uint64_t> t(tape);
				t[i]--;
				if (ok(t)) { tape = t; progress = true; }
			}
		}
	}
	return tape;
}

static uint64_t h_base, h_from, h_to;
static bool h_present;

// Run generated cases [from, to] in one fresh process; true if case `to` fails
// and none before it does.
static bool try_history(const Prop& p, uint64_t base, uint64_t from, uint64_t to, const char* errlog, std::string* sig, std::string* msg)
{
	const uint64_t saved_ev = S->evaluations, saved_idx = S->case_idx;
	S->status = 0; S->sig[0] = 0; S->msg[0] = 0;
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(errlog);
		for (S->case_idx = from; S->case_idx <= to; S->case_idx = S->case_idx + 1) {
			uint64_t x = base + S->case_idx * 0x2545F4914F6CDD1Dull;
			Gen g;
			g.m_s[0] = splitmix(x); g.m_s[1] = splitmix(x);
			S->tape_len = 0;
			run_case(p, g);
			if (S->status == 1) _exit(0);
		}
		S->status = 2;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	const bool ok = S->status == 2;
	const bool at_end = S->case_idx == to;
	if (!ok) {
		if (S->status == 1) { *sig = S->sig; *msg = S->msg; }
		else { *sig = crash_sig(st); *msg = summarize_crash(errlog, st); }
	}
	S->evaluations = saved_ev; S->case_idx = saved_idx;
	return !ok && at_end;
}

static void write_replay(const std::string& path, const Prop& p, const std::string& sig, std::string msg, const std::vector<uint64_t>& tape, const std::string& head)
{
	FILE* f = fopen(path.c_str(), "w");
	if (!f) return;
	fprintf(f, "prop %s\nsig %s\n%s\n", p.name, sig.c_str(), head.c_str());
	for (size_t i = 0; i < tape.size(); i += 64) {
		fprintf(f, "tape");
		for (size_t j = i; j < std::min(tape.size(), i + 64); j++) fprintf(f, " %lu", tape[j]);
		fprintf(f, "\n");
	}
	for (auto& c : msg) if (c == '\n') c = '~';
	fprintf(f, "# %s\n", msg.c_str());
	fclose(f);
}
static unsigned g_attempts = 1;
static bool load_tape(const char* path, std::string& prop, std::vector<uint64_t>& tape)
{
	FILE* f = fopen(path, "r");
	if (!f) return false;
	char line[16384];
	while (fgets(line, sizeof(line), f)) {
		if (strncmp(line, "prop ", 5) == 0) { prop = line + 5; while (!prop.empty() && (prop.back() == '\n' || prop.back() == ' ')) prop.pop_back(); }
		else if (sscanf(line, "attempts %u", &g_attempts) == 1) {}
		else if (sscanf(line, "history %lu %lu %lu", &h_base, &h_from, &h_to) == 3) h_present = true;
		else if (strncmp(line, "tape ", 5) == 0) {
			char* s = line + 5;
			for (;;) { char* e; uint64_t v = strtoull(s, &e, 10); if (e == s) break; tape.push_back(v); s = e; }
		}
	}
	fclose(f);
	return !prop.empty();
}

} // pbt

using namespace pbt;

// usage: harness --prop NAME --seed S --shard I --shards N --cases N --out DIR [--known FILE]
//        harness --replay FILE
int main(int argc, char** argv)
{
	std::string prop, out = ".", replay, known;
	uint64_t seed = 1, shard = 0, cases = 100, max_ms = 0;
	bool racy = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
		else if (a == "--max-ms") max_ms = strtoull(val().c_str(), 0, 10);
		else if (a == "--out") out = val();
		else if (a == "--racy") racy = true;
		else if (a == "--no-shrink") g_no_shrink = true;
		else if (a == "--replay") replay = val();
		else if (a == "--known") known = val();
		else if (a == "--cpu-limit") g_cpu_limit_s = strtoul(val().c_str(), 0, 10);
		else if (a == "--list") { for (auto& p : props()) printf("%s\n", p.name); return 0; }
	}
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); return 2; }
	const std::string errlog = out + "/" + (prop.empty() ? "replay" : prop) + "." + std::to_string(shard) + ".err";

	auto find = [&](const std::string& n) -> const Prop* {
		for (auto& p : props()) if (n == p.name) return &p;
		return nullptr;
	};

	if (!replay.empty()) {
		std::vector<uint64_t> tape; std::string pn;
		if (!load_tape(replay.c_str(), pn, tape)) { fprintf(stderr, "cannot read replay %s\n", replay.c_str()); return 2; }
		const Prop* p = find(pn);
		if (!p) { fprintf(stderr, "no such prop %s\n", pn.c_str()); return 2; }
		std::string sig, msg;
		bool f = h_present ? try_history(*p, h_base, h_from, h_to, errlog.c_str(), &sig, &msg)
			: try_tape(*p, tape, errlog.c_str(), &sig, &msg, nullptr);
		for (unsigned i = 1; i < g_attempts && !f && !h_present; i++) f = try_tape(*p, tape, errlog.c_str(), &sig, &msg, nullptr);
		if (f) { printf("REPLAY-FAILED prop=%s sig=%s\n%s\n", pn.c_str(), sig.c_str(), msg.c_str()); return 1; }
		printf("REPLAY-PASSED prop=%s\n", pn.c_str());
		return 0;
	}

	std::vector<std::string> known_sigs;
	if (!known.empty()) {
		FILE* f = fopen(known.c_str(), "r");
		char line[1024];
		while (f && fgets(line, sizeof(line), f)) {
			std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
			if (!s.empty()) known_sigs.push_back(s);
		}
		if (f) fclose(f);
	}

	const Prop* p = find(prop);
	if (!p) { fprintf(stderr, "no such prop %s\n", prop.c_str()); return 2; }
	uint64_t base = seed * 0x9E3779B97F4A7C15ull;
	base ^= hash_bytes(prop.data(), prop.size());
	base = splitmix(base) ^ (shard * 0xD1B54A32D192ED03ull);

	const double t0 = now_s();
	int rc = 0;
	bool budget_hit = false;
	unsigned flaky = 0, n_known = 0;
	S->case_idx = 0;
	while (S->case_idx < cases) {
		S->status = 0; S->sig[0] = 0; S->msg[0] = 0;
		const uint64_t child_start = S->case_idx;
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(errlog.c_str());
			while (S->case_idx < cases) {
				if (max_ms && (S->case_idx & 15) == 0 && (now_s() - t0) * 1000 > max_ms) { S->status = 3; _exit(0); }
				uint64_t x = base + S->case_idx * 0x2545F4914F6CDD1Dull;
				Gen g;
				g.m_s[0] = splitmix(x); g.m_s[1] = splitmix(x);
				S->tape_len = 0;
				g_sample_taken = false;
				run_case(*p, g);
				S->evaluations = S->evaluations + 1;
				if (S->status == 1) _exit(0);
				S->case_idx = S->case_idx + 1;
			}
			S->status = 2;
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (S->status == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (S->status == 3) { budget_hit = true; break; }
		// A failure
		std::string sig, msg;
		if (S->status == 1) { sig = S->sig; msg = S->msg; }
		else { sig = crash_sig(st); msg = summarize_crash(errlog.c_str(), st); S->evaluations = S->evaluations + 1; }
		const uint64_t idx = S->case_idx;
		std::vector<uint64_t> tape((uint64_t*)S->tape, (uint64_t*)S->tape + S->tape_len);
		bool is_known = false;
		for (auto& k : known_sigs) if (k == sig) is_known = true;
		if (is_known) { n_known++; S->excluded = S->excluded + 1; S->case_idx = idx + 1; continue; }
		int again = 0;
		const int tries = sig == "hang" ? 2 : 3;
		for (int i = 0; i < tries; i++) {
			std::string s2, m2;
			if (try_tape(*p, tape, errlog.c_str(), &s2, &m2, nullptr)) again++;
		}
		if (racy && again < tries && sig != "hang" && !(S->status != 1 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
			// The outcome depends on the schedule, and no schedule may fail
			std::string path = out + "/" + prop + "." + std::to_string(shard) + ".replay";
			write_replay(path, *p, sig, msg, tape, fmt("seed %lu shard %lu case %lu\nattempts 400", seed, shard, idx));
			printf("FAILED prop=%s shard=%lu case=%lu schedule-dependent(%d/%d) sig=%s replay=%s\n%s\n", p->name, shard, idx, again, tries, sig.c_str(), path.c_str(), msg.c_str());
			rc = 1;
			break;
		}
		if (again < tries && idx > child_start && idx - child_start < 200000) {
			// The case alone does not fail. Does it fail, every time, after the
			// cases that ran before it in the same process?
			int hist = 0;
			std::string s2, m2;
			for (int i = 0; i < 2; i++)
				if (try_history(*p, base, child_start, idx, errlog.c_str(), &s2, &m2) && s2 == sig) hist++;
			if (hist == 2) {
				uint64_t lo = child_start, hi = idx;   // latest start that still fails
				while (lo + 1 < hi) {
					uint64_t mid = lo + (hi - lo) / 2;
					if (try_history(*p, base, mid, idx, errlog.c_str(), &s2, &m2) && s2 == sig) lo = mid; else hi = mid;
				}
				std::string path = out + "/" + prop + "." + std::to_string(shard) + ".replay";
				FILE* f = fopen(path.c_str(), "w");
				if (f) {
					fprintf(f, "prop %s\nsig %s\nhistory %lu %lu %lu\n", p->name, sig.c_str(), base, lo, idx);
					std::string m = msg; for (auto& c : m) if (c == '\n') c = '~';
					fprintf(f, "# fails after the %lu preceding cases: %s\n", idx - lo, m.c_str());
					fclose(f);
				}
				printf("FAILED prop=%s shard=%lu case=%lu history=%lu sig=%s replay=%s\n%s\n", p->name, shard, idx, idx - lo, sig.c_str(), path.c_str(), msg.c_str());
				rc = 1;
				break;
			}
		}
		if (again < tries) {
			flaky++;
			printf("FLAKY prop=%s shard=%lu case=%lu reproduced=%d/%d sig=%s: %s\n", p->name, shard, idx, again, tries, sig.c_str(), msg.c_str());
			S->case_idx = idx + 1;
			if (flaky > 20) break;
			continue;
		}
		std::vector<uint64_t> small = shrink(*p, tape, errlog.c_str(), sig);
		std::string s2, m2;
		bool okfail = true;
		for (int i = 0; i < tries - 1; i++) okfail = okfail && try_tape(*p, small, errlog.c_str(), &s2, &m2, nullptr);
		if (!okfail) { small = tape; m2 = msg; s2 = sig; }
		std::string path = out + "/" + prop + "." + std::to_string(shard) + ".replay";
		write_replay(path, *p, s2, m2, small, fmt("seed %lu shard %lu case %lu%s", seed, shard, idx, racy ? "\nattempts 50" : ""));
		printf("FAILED prop=%s shard=%lu case=%lu tape=%zu->%zu sig=%s replay=%s\n%s\n", p->name, shard, idx,
			tape.size(), small.size(), s2.c_str(), path.c_str(), m2.c_str());
		rc = 1;
		break;
	}
	// stats
	std::string sp = out + "/" + prop + "." + std::to_string(shard) + ".stats";
	FILE* f = fopen(sp.c_str(), "w");
	if (f) {
		fprintf(f, "evaluations %lu\nnontrivial %lu\ndistinct %lu\nexcluded %lu\nflaky %u\nbudget_hit %d\n",
			S->evaluations, S->nontrivial, S->distinct, S->excluded, flaky, budget_hit ? 1 : 0);
		for (size_t i = 0; i < LABELS && S->labels[i].name[0]; i++)
			fprintf(f, "label %lu %s\n", S->labels[i].count, S->labels[i].name);
		for (size_t i = 0; i < S->nsamples; i++) {
			std::string m = S->samples[i]; for (auto& c : m) if (c == '\n') c = '~';
			fprintf(f, "sample %s\n", m.c_str());
		}
		fclose(f);
	}
	std::string hp = out + "/" + prop + "." + std::to_string(shard) + ".hashes";
	f = fopen(hp.c_str(), "wb");
	if (f) {
		for (size_t i = 0; i < HASH_SLOTS; i++) if (S->hashes[i]) fwrite(&S->hashes[i], 8, 1, f);
		fclose(f);
	}
	return rc;
}
