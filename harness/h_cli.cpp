// The command line emulator, as a process: what it runs, prints and returns.
#include "elfimg.hpp"
#include "pbt.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace pbt;
using namespace vm;
using namespace elfimg;
extern char** environ;

namespace {
struct Run { int status = 0; std::string out, err; };
int memfile(const char* name, const std::string& content = {})
{
	const int fd = memfd_create(name, 0);
	if (fd < 0) { perror("memfd_create"); abort(); }
	for (size_t at = 0; at < content.size();) {
		const ssize_t n = write(fd, content.data() + at, content.size() - at);
		if (n <= 0) abort();
		at += n;
	}
	return fd;
}
std::string take(int fd)
{
	std::string s(lseek(fd, 0, SEEK_END), 0);
	if (!s.empty() && pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) abort();
	close(fd);
	return s;
}
Run laemu(const std::vector<std::string>& args)
{
	Run r;
	const int o = memfile("out"), e = memfile("err");
	std::vector<char*> av{(char*)LAEMU};
	for (auto& a : args) av.push_back((char*)a.c_str());
	av.push_back(nullptr);
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_adddup2(&fa, o, 1);
	posix_spawn_file_actions_adddup2(&fa, e, 2);
	pid_t pid = 0;
	const int rc = posix_spawn(&pid, LAEMU, &fa, nullptr, av.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	if (rc != 0) { fprintf(stderr, "cannot run %s: %s\n", LAEMU, strerror(rc)); abort(); }
	for (int waited = 0;; waited++) {
		const pid_t w = waitpid(pid, &r.status, WNOHANG);
		if (w == pid) break;
		if (waited > 40000) {
			kill(pid, SIGKILL);
			waitpid(pid, &r.status, 0);
			close(o); close(e);
			fail("hang", "the emulator does not come back");
		}
		usleep(waited < 200 ? 100 : 500);
	}
	r.out = take(o); r.err = take(e);
	return r;
}
std::string shown(const std::string& s, size_t max = 700)
{
	std::string t;
	for (unsigned char c : s.substr(0, max)) if (c == '\n' || (c >= 32 && c < 127)) t += c; else t += fmt("\\x%02x", c);
	return s.size() > max ? t + "..." : t;
}

enum End { EXIT, EXIT_GROUP, FAULT_LOW, FAULT_HIGH, ILLEGAL, FOREVER, NO_CALL, ENDS };
constexpr uint64_t CODE = 0x10000, DATA = 0x40000;
struct Prog { Image im; std::string text; End end; int code; bool env = false; };

// print the pointer array at $reg, one string per line
void print_list(Asm& a, unsigned reg)
{
	// loop: ld.d t0, reg ; beqz -> out ; t1 = strlen(t0) ; write(1, t0, t1) ; write(1, nl, 1)
	const uint64_t loop = a.here();
	a.ld_d(T0, reg, 0);
	const size_t at = a.w.size();
	a.nop();                                   // beqz t0, out
	a.ori(T1, T0, 0);
	const uint64_t len = a.here();
	a.ld_bu(T2, T1, 0); a.addi_d(T1, T1, 1); a.bnez(T2, (int64_t)len - (int64_t)a.here());
	a.addi_d(T1, T1, -1);
	a.raw(0x00118000u | T0 << 10 | T1 << 5 | A2);   // sub.d a2, t1, t0
	a.ori(A0, 0, 1); a.ori(A1, T0, 0); a.syscall(64);
	a.ori(A0, 0, 1); a.li(A1, DATA); a.ori(A2, 0, 1); a.syscall(64);
	a.addi_d(reg, reg, 8);
	a.b((int64_t)loop - (int64_t)a.here());
	const int64_t off = ((int64_t)a.w.size() - (int64_t)at);
	a.w[at] = 0x40000000u | (uint32_t)(off & 0xffff) << 10 | T0 << 5 | (uint32_t)((off >> 16) & 0x1f);
}
Prog make(Gen& g)
{
	Prog p;
	p.im.code_va = CODE; p.im.data_va = DATA; p.im.data_size = 0x4000;
	p.im.data = "\n";
	Asm a(p.im);
	p.text.clear();
	a.addi_d(S0, SP, 8);
	if (g.chance(70)) { print_list(a, S0); p.text += '\1'; }
	if (g.chance(20)) {
		// the environment comes after the arguments
		a.ld_d(T0, SP, 0); a.raw(0x00410000u | 3 << 10 | T0 << 5 | T0); // slli.d
		a.raw(0x00108000u | T0 << 10 | SP << 5 | S0);                    // add.d
		a.addi_d(S0, S0, 16);
		print_list(a, S0); p.text += '\2'; p.env = true;
	}
	for (unsigned k = g.draw(3); k--;) {
		if (g.chance(50)) { a.delay(T1, 1 + g.draw(2000)); continue; }
		const std::string t = g.bytes(g.draw(g.chance(10) ? 6000 : 30));
		std::string clean;
		for (unsigned char c : t) clean += (c == 1 || c == 2) ? '.' : (char)c;
		a.ori(A0, 0, g.chance(30) ? 2 : 1); a.li(A1, DATA + p.im.data.size()); a.li(A2, clean.size());
		a.syscall(64);
		p.text += clean; p.im.data += clean;
	}
	p.im.data_size = std::max<uint64_t>(0x4000, p.im.data.size());
	p.end = (End)g.weighted({40, 30, 8, 8, 8, 10, 6});
	p.code = (int)g.pick({(uint64_t)0, (uint64_t)1, g.draw(255), g.draw(2047), ~g.draw(300) });
	switch (p.end) {
	case EXIT: case EXIT_GROUP: a.li(A0, (uint64_t)(int64_t)p.code); a.syscall(p.end == EXIT ? 93 : 94); a.nop(); break;
	case FAULT_LOW: a.ori(T0, 0, g.draw(2000)); a.ld_d(A0, T0, 0); break;
	case FAULT_HIGH: a.li(T0, 0x7fff00000000 + g.draw(1000)); a.st_d(A0, T0, 0); break;
	case ILLEGAL: a.raw(0xffffffffu); break;
	case FOREVER: a.b(0); break;
	default: a.syscall(300 + g.draw(100)); break;
	}
	a.nop();
	return p;
}
std::string capture;
void cap_write(Machine& m)
{
	const uint64_t fd = m.cpu.reg(4), p = m.cpu.reg(5), n = m.cpu.reg(6);
	if (fd != 1 && fd != 2) abort();
	capture.append(m.memory.memview(p, n));
	m.set_result(n);
}
// The same program run by the library
struct Lib { std::string out; uint64_t count = 0; bool limited = false; int exception = -1; int ret = 0; std::string what; uint64_t data = 0; };
Lib run_lib(const std::string& file, const std::vector<std::string>& args, uint64_t fuel, bool step = true)
{
	static bool once = false;
	auto o = options();
	o->memory_max = 16 << 20;
	Machine m{std::string_view(file), *o};
	m.set_options(o);
	if (!once) { once = true; m.setup_linux_syscalls(); Machine::install_syscall_handler(64, cap_write); }
	m.setup_linux(args, {"LC_ALL=C", "USER=groot"});
	Lib l;
	capture.clear();
	m.set_max_instructions(fuel);
	try {
		// one at a time, independent of the fast dispatch
		if (step) while (!m.stopped() && m.instruction_counter() < fuel) m.cpu.step_one(true);
		else m.simulate(fuel);   // may complete the current block
		l.limited = !m.stopped();
	} catch (const MachineException& e) { l.exception = e.type(); l.what = e.what(); l.data = e.data(); }
	l.out = capture; l.count = m.instruction_counter(); l.ret = (int)m.cpu.reg(4);
	return l;
}
bool eat(std::string& s, const std::string& prefix)
{
	if (s.compare(0, prefix.size(), prefix) != 0) return false;
	s.erase(0, prefix.size());
	return true;
}
// digits, a point, and as many more digits
bool eat_float(std::string& s, unsigned decimals)
{
	size_t i = 0;
	while (i < s.size() && isdigit((unsigned char)s[i])) i++;
	if (i == 0 && !eat(s, "inf")) return false;
	if (i == 0) return true;
	if (i + 1 + decimals > s.size() || s[i] != '.') return false;
	for (unsigned k = 0; k < decimals; k++) if (!isdigit((unsigned char)s[i + 1 + k])) return false;
	s.erase(0, i + 1 + decimals);
	return true;
}
} // namespace

PROP(cli_run)
{
	const Prog p = make(g);
	const std::string file = build(p.im);
	const int fd = memfile("program", file);
	const std::string path = fmt("/proc/self/fd/%d", fd);
	struct Closer { int fd; ~Closer() { close(fd); } } closer{fd};

	// the options
	std::vector<std::string> av;
	bool silent = false, precise = false, timing = false, stats = false, verbose = false;
	uint64_t fuel = 0;
	std::vector<std::string> args{path};
	for (unsigned k = g.draw(3); k--;) {
		if (g.chance(35)) { args.push_back(g.pick<std::string>({"-f", "--fuel", "-s", "--silent", "--precise", "-m", "--", "-", "-x", "--nope", "-h", "--stats", "-f5", "--fuel=3"})); continue; }
		std::string t;
		for (unsigned i = g.draw(g.chance(20) ? 80 : 10); i--;) t += (char)(33 + g.draw(g.chance(10) ? 220 : 90));
		args.push_back(t);
	}
	const Lib full = p.end == FOREVER ? run_lib(file, args, 2'000'000) : run_lib(file, args, UINT64_MAX);
	if (p.end == FOREVER || g.chance(50)) {
		switch (g.weighted({30, 40, 20, p.end == FOREVER ? 0u : 10u})) {
		case 0: fuel = 1 + g.draw(3000); break;
		case 1: fuel = p.end == FOREVER ? 20000 + g.draw(500000) : full.count + g.draw(4) > 2 ? full.count + g.draw(4) - 2 : 1; break;
		case 2: fuel = full.count + 1 + g.draw(1000000); break;
		default: fuel = UINT64_MAX; break;
		}
		if (fuel == 0) fuel = 1;
	}
	struct Opt { std::vector<std::string> v; };
	std::vector<Opt> pool;
	if (fuel) {
		const std::string n = fuel == UINT64_MAX ? g.pick<std::string>({"max", "MAX", "18446744073709551615"}) : std::to_string(fuel);
		switch (g.draw(3)) {
		case 0: pool.push_back({{"--fuel", n}}); break;
		case 1: pool.push_back({{"-f", n}}); break;
		case 2: pool.push_back({{"--fuel=" + n}}); break;
		default: pool.push_back({{"-f" + n}}); break;
		}
	}
	if ((silent = g.chance(25))) pool.push_back({{g.pick<std::string>({"-s", "--silent"})}});
	if ((precise = g.chance(30))) pool.push_back({{"--precise"}});
	if ((timing = g.chance(25))) pool.push_back({{g.pick<std::string>({"-t", "--timing"})}});
	if ((stats = g.chance(15))) pool.push_back({{"--stats"}});
	if ((verbose = g.chance(10))) pool.push_back({{g.pick<std::string>({"-v", "--verbose"})}});
	if (g.chance(25)) pool.push_back({{"-n"}});
	if (g.chance(10)) pool.push_back({{"--no-regcache"}});
	if (g.chance(50)) { const std::string n = std::to_string(g.pick({16, 5, 64, 512, 4096, 9000})); if (g.chance(50)) pool.push_back({{"-m", n}}); else pool.push_back({{"--memory=" + n}}); }
	while (!pool.empty()) {
		const size_t i = g.index(pool.size());
		for (auto& s : pool[i].v) av.push_back(s);
		pool.erase(pool.begin() + i);
	}
	if (g.chance(30)) av.push_back("--");
	for (auto& s : args) av.push_back(s);
	std::string line = "laemu";
	for (auto& s : av) line += " '" + shown(s) + "'";

	// what the program does, from its text
	std::string say;
	for (char c : p.text) {
		if (c == '\1') { for (auto& s : args) say += s + "\n"; }
		else if (c == '\2') say += "LC_ALL=C\nUSER=groot\n";
		else say += c;
	}
	if (full.out != say) fail("library-output", fmt("%s\nstepping through the program prints\n%s\ninstead of\n%s", line.c_str(), shown(full.out).c_str(), shown(say).c_str()));
	const Lib want = fuel ? run_lib(file, args, fuel, precise) : full;

	const Run r = laemu(av);
	auto bad = [&](const char* sig, const std::string& m) {
		fail(sig, fmt("%s\n%s\nprogram: %zu words, ends with %d (code %d), %lu instructions%s\nstatus 0x%x\nstdout:\n%s\nstderr:\n%s", line.c_str(), m.c_str(), p.im.code.size(), (int)p.end, p.code, (unsigned long)want.count, want.limited ? " (limited)" : "", r.status, shown(r.out).c_str(), shown(r.err).c_str()));
	};
	if (!WIFEXITED(r.status)) bad("killed", fmt("the emulator is ended by signal %d", WTERMSIG(r.status)));
	const int code = WEXITSTATUS(r.status);
	std::string out = r.out;
	if (verbose) {
		// its own messages are mixed with the program's output
		std::string head = "Arguments:\n";
		for (auto& s : args) head += "  " + s + "\n";
		if (out.find(head) == std::string::npos) bad("verbose-arguments", "the arguments are not listed");
		if (out.find("Program entry point at: 0x10000\n") == std::string::npos) bad("verbose-entry", "the entry point is not printed");
	} else {
		if (!eat(out, want.out)) bad("output", fmt("the output is not what the program writes (%zu bytes)\n%s", want.out.size(), shown(want.out).c_str()));
	}
	if (want.exception >= 0) {
		if (code != 255) bad("exception-status", fmt("exit status %d after an exception", code));
		const std::string m = fmt("Machine exception: %s, data: 0x%lx", want.what.c_str(), (unsigned long)want.data);
		if (r.err.find(m) == std::string::npos) bad("exception-message", fmt("no message '%s'", m.c_str()));
		if (!verbose && !out.empty()) bad("more-output", "there is more output");
		g.label("ends with an exception");
	} else {
		if (stats && !verbose) {
			if (!eat(out, "\n=== Bytecode Usage Statistics ===\n\n")) bad("stats", "no statistics");
			uint64_t sum = 0, total = 0;
			bool seen = false;
			while (!out.empty()) {
				const size_t nl = out.find('\n');
				if (nl == std::string::npos) break;
				const std::string l = out.substr(0, nl);
				out.erase(0, nl + 1);
				if (sscanf(l.c_str(), "Total instructions in cache: %lu", &total) == 1) { seen = true; break; }
				uint64_t n; float f; char nm[64];
				if (sscanf(l.c_str(), "%60s %lu %f%%", nm, &n, &f) == 3) sum += n;
			}
			if (!seen || sum != total || total < p.im.code.size() || total > p.im.code.size() + 8) bad("stats-sum", fmt("the statistics add up to %lu of %lu, for %zu words", (unsigned long)sum, (unsigned long)total, p.im.code.size()));
		}
		if (!want.limited) {
			if (code != (p.code & 0xff)) bad("status", fmt("exit status %d instead of %d", code, p.code & 0xff));
			if (verbose || stats) { const size_t at = out.rfind("Program exited"); if (at != std::string::npos) out.erase(0, at); else if (silent) out.clear(); }
			bool ok = true;
			if (!silent) {
				ok = eat(out, fmt("Program exited with code %d", p.code));
				if (fuel) ok = ok && eat(out, fmt(" after %lu instructions (", (unsigned long)want.count)) && eat_float(out, 3) && eat(out, " seconds, ") && eat_float(out, 2) && eat(out, " MI/s)");
				else if (timing) ok = ok && eat(out, " (") && eat_float(out, 3) && eat(out, " seconds)");
				ok = ok && eat(out, "\n");
			}
			if (!ok || !out.empty()) bad("exit-line", fmt("the rest of the output is '%s', after %lu instructions", shown(out).c_str(), (unsigned long)want.count));
			if (!verbose && !r.err.empty()) bad("stderr", "something on standard error");
			g.label("ends normally");
		} else {
			if (code != 255) bad("timeout-status", fmt("exit status %d after a timeout", code));
			std::string err = r.err;
			if (verbose) { const size_t at = err.rfind("Execution timeout"); if (at != std::string::npos) err.erase(0, at); else if (silent) err.clear(); }
			bool ok = true;
			if (!silent) {
				ok = eat(err, fmt("Execution timeout after %lu instructions", (unsigned long)want.count));
				if (timing) ok = ok && eat(err, " (") && eat_float(err, 6) && eat(err, " seconds)");
				ok = ok && eat(err, "\n");
			}
			if (!ok || !err.empty()) bad("timeout-line", fmt("standard error is '%s', after %lu instructions", shown(err).c_str(), (unsigned long)want.count));
			if (!verbose && !out.empty()) bad("more-output", "there is more output");
			g.label("runs out of fuel");
		}
	}
	g.label(precise ? "precise" : fuel ? "with fuel" : "unlimited");
	if (args.size() > 1) g.label("arguments");
	uint64_t h = hash_bytes(file.data(), file.size());
	for (auto& s : av) h = hash_bytes(s.data(), s.size(), h);
	if (p.im.code.size() > 8) g.nontrivial(h);
	if (g.want_sample()) g.sample(line + fmt(": %zu words, %lu instructions, status %d, %zu bytes of output", p.im.code.size(), (unsigned long)want.count, code, want.out.size()));
}

// What is not a program it can run
PROP(cli_refuse)
{
	std::vector<std::string> av;
	std::string file, why;
	int fd = -1;
	int want = 1;
	Prog p = make(g);
	file = build(p.im);
	bool help_out = false, help_err = false;
	std::vector<std::string> pre;
	if (g.chance(40)) pre.push_back(g.pick<std::string>({"-s", "-t", "--precise", "-n", "--stats"}));
	std::string target;
	switch (g.draw(7)) {
	case 0: why = "no program"; help_err = true; break;
	case 1: why = "help"; pre.push_back(g.pick<std::string>({"-h", "--help"})); help_out = true; want = 0; target = g.chance(50) ? "x" : ""; break;
	case 2: why = "unknown option"; pre.push_back(g.pick<std::string>({"--nope", "-Z", "--fue1"})); help_out = true; target = g.chance(50) ? "x" : ""; break;
	case 3: why = "no such file"; target = "/nonexistent/" + std::to_string(g.draw(1000)); break;
	case 4: why = "a short file"; file.resize(g.draw(4)); break;
	case 5: why = "not an ELF"; file[g.draw(3)] ^= (char)(1 + g.draw(254)); break;
	case 6: why = "unknown class"; file[4] = (char)(g.chance(50) ? 1 : 3 + g.draw(250)); break;
	default: {
		why = "cannot be loaded"; want = 255;
		switch (g.draw(3)) {
		case 0: file[18] ^= 1; break;                       // the architecture
		case 1: pre.push_back("-m"); pre.push_back(std::to_string(g.draw(3))); break; // no room for stack and heap
		case 2: file.resize(64 + g.draw(100)); break;       // no segments
		default: want = 1; pre.push_back("-m"); pre.push_back(std::to_string(g.pick({1ull << 30, 1ull << 43, (1ull << 44) - 1}))); break; // more than there is
		}
	} }
	if (target.empty() && why != "no program" && why != "help" && why != "unknown option") {
		fd = memfile("program", file);
		target = fmt("/proc/self/fd/%d", fd);
	}
	for (auto& s : pre) av.push_back(s);
	if (!target.empty()) av.push_back(target);
	std::string line = "laemu";
	for (auto& s : av) line += " " + s;
	const Run r = laemu(av);
	if (fd >= 0) close(fd);
	auto bad = [&](const char* sig, const std::string& m) { fail(sig, fmt("%s (%s)\n%s\nstatus 0x%x\nstdout:\n%s\nstderr:\n%s", line.c_str(), why.c_str(), m.c_str(), r.status, shown(r.out).c_str(), shown(r.err).c_str())); };
	if (!WIFEXITED(r.status)) bad("refuse-killed", fmt("the emulator is ended by signal %d", WTERMSIG(r.status)));
	if (WEXITSTATUS(r.status) != want) bad("refuse-status", fmt("exit status %d instead of %d", WEXITSTATUS(r.status), want));
	if (want != 0 && r.err.empty()) bad("refuse-message", "nothing on standard error");
	if ((help_out || help_err) && r.out.find("Usage: ") == std::string::npos) bad("refuse-help", "no help");
	if (!help_out && !help_err && !r.out.empty()) bad("refuse-output", "something on standard output");
	g.label(why.c_str());
	g.nontrivial(hash_bytes(line.data(), line.size(), hash_bytes(file.data(), file.size())));
	if (g.want_sample()) g.sample(line + " (" + why + "): status " + std::to_string(WEXITSTATUS(r.status)));
}
