// The Linux system calls and signals, against a model of what they promise.
#include "prog.hpp"
#include "elfimg.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <map>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
constexpr uint64_t CODE_VA = 0x10000, DATA_VA = 0x40000, DATA_SIZE = 0x8000, MEM = 0x80000;
constexpr unsigned NHAND = 12;
constexpr uint64_t HAND = CODE_VA + 0x100;          // handlers, 16 bytes apart
constexpr uint64_t SAVE = DATA_VA + 0x7000;

int out_fd() { static int fd = memfd_create("out", 0); return fd; }
struct Capture {
	int saved;
	Capture() { fflush(stdout); saved = dup(1); if (ftruncate(out_fd(), 0)) abort(); lseek(out_fd(), 0, SEEK_SET); dup2(out_fd(), 1); }
	std::string take()
	{
		fflush(stdout);
		const off_t n = lseek(out_fd(), 0, SEEK_END);
		std::string s(n, 0);
		if (n && pread(out_fd(), s.data(), n, 0) != n) abort();
		if (n) { if (ftruncate(out_fd(), 0)) abort(); lseek(out_fd(), 0, SEEK_SET); }
		return s;
	}
	~Capture() { fflush(stdout); dup2(saved, 1); close(saved); }
};

struct Action { uint64_t handler = 0, mask = 0; bool onstack = false, ign = false; };
struct Model {
	std::vector<uint8_t> mem;
	uint64_t ro, wr, end, base, top;      // base: first page handed out by mmap
	std::vector<bool> mapped;             // pages from base on
	Action sig[65];
	uint64_t ss[3] = {0, 0, 0};
	bool rd(uint64_t a, uint64_t n) const { return a >= ro && a < end && n <= end - a; }
	bool wrt(uint64_t a, uint64_t n) const { return a >= wr && a < end && n <= end - a; }
	bool is_mapped(uint64_t a) const { return a < base || (a < end && mapped[(a - base) / 4096]); }
	bool all_mapped(uint64_t a, uint64_t n) const { for (uint64_t p = a & ~4095ull; p < a + n; p += 4096) if (!is_mapped(p)) return false; return true; }
	template <typename T> T get(uint64_t a) const { T v; memcpy(&v, &mem[a], sizeof v); return v; }
	template <typename T> void put(uint64_t a, T v) { memcpy(&mem[a], &v, sizeof v); }
};

struct World {
	Gen& g;
	Loaded l;
	Model mo;
	Mode mode;
	bool verbose;                     // the library describes the calls on standard output
	Capture cap;
	std::string story;
	uint64_t h = 0;
	unsigned oks = 0, faults = 0, rounds = 0;
	struct Area { uint64_t a, n; };
	std::vector<Area> areas;
	std::vector<uint64_t> used;       // recent pointers

	explicit World(Gen& g_) : g(g_)
	{
		Image im;
		im.code_va = CODE_VA; im.data_va = DATA_VA; im.data_size = DATA_SIZE;
		Asm a(im);
		a.raw(prog::SYSCALL_WORD); a.stop();
		while (a.here() < HAND) a.nop();
		for (unsigned i = 0; i < NHAND; i++) { a.ori(T0, 0, 0x700 + i); a.stop(); a.nop(); a.nop(); }
		l = load(im, MEM, 0x4000, 0x4000);
		Machine& m = *l;
		Machine::setup_linux_syscalls();
		mo.ro = m.memory.rodata_start(); mo.wr = m.memory.data_start(); mo.end = m.memory.arena_size();
		mo.base = mo.top = m.memory.mmap_address();
		if (mo.base & 4095) fail("base", fmt("mappings start at 0x%lx", (unsigned long)mo.base));
		mo.mapped.assign((mo.end - mo.base + 4095) / 4096, false);
		// recognisable contents
		uint64_t s = g.draw(0xffff) + 1;
		for (uint64_t i = DATA_VA; i < mo.base; i += 8) { uint64_t v = isagen::bgmix(s); memcpy(arena(m) + i, &v, 8); }
		mo.mem.assign(arena(m), arena(m) + mo.end);
		mode = g.pick({FAST, STEP, INACC});
		verbose = l.opts->verbose_syscalls = g.chance(8);
		for (int i = 1; i < 32; i++) m.cpu.reg(i) = isagen::bgmix(s);
		m.set_max_instructions(~0ull);
	}
	Machine& m() { return *l; }

	// pointers: usually good for n bytes
	uint64_t ptr(uint64_t n, bool may_fault = true)
	{
		switch (g.weighted({60, 12, 10, may_fault ? 4u : 0u, may_fault ? 4u : 0u, may_fault ? 3u : 0u, may_fault ? 3u : 0u})) {
		case 1: if (!used.empty()) return used[g.index(used.size())]; break;
		case 2: if (!areas.empty()) { auto& r = areas[g.index(areas.size())]; return r.a + (n < r.n ? (g.chance(50) ? g.draw(r.n - n) : r.n - n) : 0); } break;
		case 3: return mo.end - n + g.draw(8) - 4;
		case 4: return g.pick({uint64_t(0x1000), uint64_t(CODE_VA + 64), uint64_t(DATA_VA - 8), uint64_t(8), mo.ro - 4, mo.wr - 4});
		case 5: return g.u64();
		case 6: return ~0ull - g.draw(64);
		default: break;
		}
		uint64_t a = DATA_VA + g.draw(n + 0x40 < 0x6000 ? 0x6000 - n : 8);
		if (g.chance(60)) a &= ~7ull;
		used.push_back(a);
		return a;
	}
	uint64_t junk32(uint64_t v) { return g.chance(15) ? (v & 0xffffffff) | g.raw64() << 32 : (uint64_t)(int64_t)(int32_t)v; }

	enum Kind { RESULT, FAULT, EITHER, ERR, STOPS };
	struct Expect {
		Kind kind = RESULT;
		uint64_t result = 0;
		std::string out;
		bool out_prefix = false;          // on a fault, part of the output may have come
		int etype = -1;
		uint64_t pc = CODE_VA + 8;
		uint64_t sp = 0; bool has_sp = false;
		unsigned handler = 0; bool enters = false;
		bool any_result = false;
		std::vector<Area> loose;          // memory that a failing call may have changed
	};

	// performs one call; returns what the model has to adopt
	void call(const char* name, unsigned nr, std::initializer_list<uint64_t> args, Expect e)
	{
		Machine& mm = m();
		uint64_t regs[32];
		int i = 4;
		for (uint64_t v : args) mm.cpu.reg(i++) = v;
		mm.cpu.reg(11) = nr;
		for (int k = 0; k < 32; k++) regs[k] = mm.cpu.reg(k);
		std::string what = fmt("%s(", name);
		for (uint64_t v : args) what += fmt("%s0x%lx", v == *args.begin() && what.back() == '(' ? "" : ", ", (unsigned long)v);
		what += ")";
		if (rounds < 60) story += "\n  " + what;
		rounds++;
		h = mix(h, nr); for (uint64_t v : args) h = mix(h, v);
		std::string exc; int etype = -1;
		try {
			mm.cpu.jump(CODE_VA);
			if (mode == STEP) {
				mm.cpu.step_one();
				if (e.enters) mm.cpu.step_one();
			} else if (mode == INACC) mm.cpu.simulate_inaccurate(CODE_VA);
			else mm.simulate(1000, 0);
		} catch (const MachineException& ex) { etype = (int)ex.type(); exc = fmt("exception %d (%s, data 0x%lx)", etype, ex.what(), (unsigned long)ex.data()); }
		catch (const std::exception& ex) { fail(fmt("%s:hostexc", name), what + ": " + ex.what() + where()); }
		std::string out = cap.take();
		if (verbose) out = e.kind == FAULT || e.kind == ERR ? "" : e.out;   // (mixed with the descriptions)
		const uint64_t a0 = mm.cpu.reg(4);
		const bool threw = etype >= 0;
		for (auto& r : e.loose) for (uint64_t p = r.a; p < r.a + r.n && p < mo.end; p++) if (p >= mo.wr) {
			if (!mo.is_mapped(p)) arena(mm)[p] = 0;   // keep unmapped memory untouched
			mo.mem[p] = arena(mm)[p];
		}
		const bool refused = (threw && etype == (int)loongarch::PROTECTION_FAULT) || (!threw && a0 == (uint64_t)-14);
		if (e.kind == ERR) {
			if (!threw || etype != e.etype) fail(fmt("%s:noexc", name), what + (threw ? ": raised " + exc : fmt(" returned 0x%lx, expected an exception", (unsigned long)a0)) + where());
		} else if (e.kind == FAULT) {
			if (!refused) fail(fmt("%s:nofault", name), what + (threw ? ": raised " + exc : fmt(" returned 0x%lx, but memory it needs is out of reach", (unsigned long)a0)) + where());
		} else if (e.kind == EITHER && refused) e.kind = FAULT;
		else if (threw) fail(fmt("%s:exc", name), what + ": " + exc + where());
		if (e.kind == FAULT || e.kind == ERR) {
			faults++;
			if (!e.out_prefix && !out.empty()) fail(fmt("%s:output", name), what + fmt(" failed, but printed %zu bytes", out.size()) + where());
			if (e.out_prefix && (out.size() > e.out.size() || e.out.compare(0, out.size(), out) != 0)) fail(fmt("%s:output", name), what + " failed, and printed something else than its data" + where());
			for (int k = 0; k < 32; k++) if (k != 4 && mm.cpu.reg(k) != regs[k]) fail(fmt("%s:regs", name), what + fmt(" changed r%d from 0x%lx to 0x%lx", k, (unsigned long)regs[k], (unsigned long)mm.cpu.reg(k)) + where());
			check_memory(name, what);
			return;
		}
		oks++;
		if (out != e.out) fail(fmt("%s:output", name), what + fmt(" printed %zu bytes, expected %zu%s", out.size(), e.out.size(), out.size() == e.out.size() ? " with other contents" : "") + where());
		if (e.kind == STOPS) {
			if (!mm.stopped()) fail(fmt("%s:nostop", name), what + " did not stop the machine" + where());
			e.result = regs[4];
		} else if (mode != STEP && mm.cpu.pc() != (e.enters ? HAND + 16 * e.handler + 8 : e.pc)) fail(fmt("%s:pc", name), what + fmt(" continued to pc 0x%lx", (unsigned long)mm.cpu.pc()) + where());
		if (!e.any_result && a0 != e.result) fail(fmt("%s:result", name), what + fmt(" left 0x%lx in a0, expected 0x%lx", (unsigned long)a0, (unsigned long)e.result) + where());
		for (int k = 0; k < 32; k++) {
			uint64_t want = regs[k];
			if (k == 4) continue;
			if (k == SP && e.has_sp) want = e.sp;
			if (k == T0 && e.enters) want = 0x700 + e.handler;
			if (mm.cpu.reg(k) != want) fail(fmt("%s:regs", name), what + fmt(" left 0x%lx in r%d, expected 0x%lx", (unsigned long)mm.cpu.reg(k), k, (unsigned long)want) + where());
		}
		check_memory(name, what);
	}
	void check_memory(const char* name, const std::string& what)
	{
		const uint8_t* p = arena(m());
		if (memcmp(p, mo.mem.data(), mo.base) != 0) { size_t i = 0; while (p[i] == mo.mem[i]) i++; fail(fmt("%s:mem", name), what + fmt(": memory at 0x%zx is %02x, expected %02x", i, p[i], mo.mem[i]) + where()); }
		for (uint64_t pg = mo.base; pg < mo.end; pg += 4096) {
			const size_t n = std::min<uint64_t>(4096, mo.end - pg);
			if (!mo.is_mapped(pg)) { memcpy(&mo.mem[pg], p + pg, n); continue; }
			if (memcmp(p + pg, &mo.mem[pg], n)) { size_t i = pg; while (p[i] == mo.mem[i]) i++; fail(fmt("%s:mem", name), what + fmt(": mapped memory at 0x%zx is %02x, expected %02x", i, p[i], mo.mem[i]) + where()); }
		}
	}
	std::string where() { return fmt("\n  %s dispatch; mappings from 0x%lx, memory ends at 0x%lx; history:", mode_name(mode), (unsigned long)mo.base, (unsigned long)mo.end) + story; }
	// the guest writes to its own memory
	void poke(uint64_t a, const void* p, size_t n)
	{
		if (!mo.wrt(a, n)) return;
		memcpy(arena(m()) + a, p, n); memcpy(&mo.mem[a], p, n);
	}
	template <typename T> void poke(uint64_t a, T v) { poke(a, &v, sizeof v); }
	// a single word may reach a few bytes behind the end
	bool straddles(uint64_t a, uint64_t n) { return a < mo.end && n > mo.end - a; }
	bool reach_ok(uint64_t a, uint64_t n) { return !mo.wrt(a, n) || mo.all_mapped(a, n); }

	void op(bool signals);
	void sigop();
	int fd() { return (int)g.pick({0, 1, 2, 1, 1, 3, -1, 99, 0x7fffffff, -100}); }
};

uint64_t err(int e) { return (uint64_t)-(int64_t)e; }

void World::sigop()
{
	Expect e;
	auto signo = [&]() -> int { return g.weighted({80, 10, 10}) == 0 ? (int)g.pick({1, 6, 2, 11, 10, 63, 64, 32}) : g.chance(50) ? (int)(1 + g.draw(63)) : (int)g.pick({0, 65, -1, 1000, 64, 66}); };
	switch (g.weighted({40, 20, 40})) {
	case 0: { // rt_sigaction
		const int sig = signo();
		uint64_t act = g.chance(70) ? ptr(32) : 0, old = g.chance(60) ? ptr(32) : 0;
		if (!reach_ok(old, 24)) old = 0;
		Action nw;
		if (act && mo.wrt(act, 32) && mo.is_mapped(act)) {
			nw.ign = g.chance(5);
			nw.handler = nw.ign ? 1 : g.chance(15) ? 0 : HAND + 16 * g.draw(NHAND - 1);
			nw.onstack = g.chance(40); nw.mask = g.u64();
			poke<uint64_t>(act, nw.handler); poke<uint64_t>(act + 8, (nw.onstack ? 0x08000000 : 0) | (g.chance(50) ? 0x10000004 : 0)); poke<uint64_t>(act + 16, nw.mask);
		} else if (act && mo.rd(act, 24)) return;     // not ours to choose
		if (sig < 1 || sig > 64) { e.result = err(22); call("rt_sigaction", 134, {junk32(sig), act, old, 8}, e); return; }
		Action& a = mo.sig[sig];
		const bool bad_old = old && !mo.wrt(old, 24), bad_act = act && !mo.rd(act, 24);
		if (old && act && mo.wrt(old, 24) && act < old + 24 && old < act + 24) return;   // overlapping
		if (bad_old || bad_act) {
			// which of the two happens first is not promised
			e.kind = FAULT; if (!bad_old && old) e.loose.push_back({old, 24});
			if (bad_old && act && !bad_act) act = 0;
			call("rt_sigaction", 134, {junk32(sig), act, old, 8}, e);
			return;
		}
		if (a.ign) old = 0;
		if (old) {
			// only the handler, the alternate stack flag and the mask are kept
			mo.put<uint64_t>(old, a.handler); mo.put<uint64_t>(old + 8, a.onstack ? 0x08000000 : 0); mo.put<uint64_t>(old + 16, a.mask);
		}
		if (act) a = nw;
		call("rt_sigaction", 134, {junk32(sig), act, old, 8}, e);
		break; }
	case 1: { // sigaltstack
		uint64_t ss = g.chance(60) ? ptr(24) : 0, old = g.chance(60) ? (ss && g.chance(20) ? ss : ptr(24)) : 0;
		if (!reach_ok(old, 24)) old = 0;
		uint64_t nw[3] = {DATA_VA + 16 * g.draw(0x700), g.chance(80) ? 0 : g.draw(3), 16 * g.draw(0x400)};
		if (ss && mo.wrt(ss, 24) && mo.is_mapped(ss)) { poke<uint64_t>(ss, nw[0]); poke<uint32_t>(ss + 8, nw[1]); poke<uint64_t>(ss + 16, nw[2]); }
		else if (ss && mo.rd(ss, 24)) return;
		if (old && ss && ss != old && mo.wrt(old, 24) && ss < old + 24 && old < ss + 24) return;
		const bool bad_old = old && !mo.wrt(old, 24), bad_ss = ss && !mo.rd(ss, 24);
		if (bad_old || bad_ss) { if (bad_old) ss = 0; e.kind = FAULT; if (!bad_old && old) e.loose.push_back({old, 24}); call("sigaltstack", 132, {ss, old}, e); return; }
		if (old) { mo.put<uint64_t>(old, mo.ss[0]); mo.put<uint64_t>(old + 8, (uint32_t)mo.ss[1]); mo.put<uint64_t>(old + 16, mo.ss[2]); }
		if (ss) memcpy(mo.ss, nw, sizeof nw);
		call("sigaltstack", 132, {ss, old}, e);
		break; }
	default: { // tkill, tgkill
		int sig = signo();
		if (sig < 0 || sig > 64) sig = g.chance(50) ? 0 : 1 + (int)g.draw(63);
		const Action& a = mo.sig[sig];
		const bool tg = g.chance(50), runs = sig != 0 && a.handler > 1;
		if (runs) {
			e.enters = true; e.handler = (unsigned)((a.handler - HAND) / 16); e.result = (uint64_t)sig;
			if (a.onstack) { e.has_sp = true; e.sp = mo.ss[0] + mo.ss[2]; }
			g.label("~handler entered");
		} else if (sig == 6 && tg) {
			if (a.ign) return;
			e.kind = ERR; e.etype = (int)loongarch::GUEST_ABORT;
		}
		if (tg) call("tgkill", 131, {junk32(0), junk32((uint64_t)m().gettid()), junk32(sig)}, e);
		else call("tkill", 130, {junk32((uint64_t)m().gettid()), junk32(sig)}, e);
		break; }
	}
}

void World::op(bool signals)
{
	Expect e;
	if (signals && g.chance(90)) { sigop(); return; }
	switch (g.weighted({14, 10, 4, 2, 3, 5, 2, 3, 20, 14, 6, 4, 4, 4, 6, 5, 6, 6, 4, 8, 2, 6, 2})) {
	case 0: { // write
		const int f = fd();
		const uint64_t n = g.weighted({60, 20, 10, 4}) == 0 ? g.draw(64) : g.chance(50) ? g.draw(0x3000) : g.chance(50) ? 0 : g.u64();
		const uint64_t a = ptr(n > 0x5000 ? 8 : n);
		if (f != 1 && f != 2) e.result = err(9);
		else if (!mo.rd(a, n)) e.kind = n ? FAULT : EITHER;
		else { e.result = n; e.out.assign((const char*)&mo.mem[a], n); }
		call("write", 64, {junk32((uint64_t)f), a, n}, e);
		break; }
	case 1: { // writev
		const int f = fd();
		const uint64_t cnt = g.chance(90) ? g.draw(5) : g.chance(50) ? 1025 + g.draw(3) : g.u64();
		const uint64_t iov = ptr(16 * std::min<uint64_t>(cnt, 6));
		for (uint64_t i = 0; i < cnt && i < 6; i++) {
			const uint64_t n = g.chance(80) ? g.draw(40) : g.chance(50) ? g.draw(0x5000) : g.draw(1) * g.u64();
			if (mo.wrt(iov + 16 * i, 16) && mo.is_mapped(iov + 16 * i)) { poke<uint64_t>(iov + 16 * i, ptr(n > 0x5000 ? 8 : n)); poke<uint64_t>(iov + 16 * i + 8, n); }
		}
		if (cnt > 1024) { e.kind = ERR; e.etype = (int)loongarch::ILLEGAL_OPERATION; }
		else if (f != 1 && f != 2) e.result = err(9);
		else {
			for (uint64_t i = 0; i < cnt; i++) {
				if (straddles(iov + 16 * i, 16)) return;
				if (!mo.rd(iov + 16 * i, 16)) { e.kind = FAULT; break; }
				const uint64_t a = mo.get<uint64_t>(iov + 16 * i), n = mo.get<uint64_t>(iov + 16 * i + 8);
				if (n == 0) continue;
				if (!mo.rd(a, n)) { e.kind = FAULT; break; }
				e.out.append((const char*)&mo.mem[a], n); e.result += n;
			}
			e.out_prefix = true;
		}
		call("writev", 66, {junk32((uint64_t)f), iov, cnt}, e);
		break; }
	case 2: { const int f = fd(); e.result = f == 0 ? 0 : err(9); call("read", 63, {junk32((uint64_t)f), ptr(64), g.draw(64)}, e); break; }
	case 3: { const uint64_t a = ptr(16, false); e.result = err(2); call("openat", 56, {junk32((uint64_t)-100), a, g.draw(0x1000), g.draw(511)}, e); break; }
	case 4: { const int f = fd(); e.result = f >= 0 && f <= 2 ? 0 : err(9); call("close", 57, {junk32((uint64_t)f)}, e); break; }
	case 5: { // fstat
		const int f = fd(); const uint64_t a = ptr(128);
		if (!reach_ok(a, 128)) return;
		if (f < 0 || f > 2) e.result = err(9);
		else if (a == 0) return;
		else if (!mo.wrt(a, 128)) { e.kind = FAULT; e.loose.push_back({a, 128}); }
		else memset(&mo.mem[a], 0, 128);
		call("fstat", 80, {junk32((uint64_t)f), a}, e);
		break; }
	case 6: e.result = err(38); call("statx", 291, {junk32((uint64_t)-100), ptr(16, false), g.draw(0x1000), 0x7ff, ptr(256)}, e); break;
	case 7: { const int f = fd(); e.result = f >= 0 && f <= 2 ? err(25) : err(9); call("ioctl", 29, {junk32((uint64_t)f), 0x5413, ptr(64)}, e); break; }
	case 8: { // mmap
		const bool huge = g.chance(8);
		const uint64_t n = huge ? g.pick({~uint64_t(0), ~uint64_t(0) - 4095, uint64_t(1) << 63, uint64_t(1) << 40, uint64_t(MEM), mo.end - mo.top + 1, mo.end - mo.top}) : g.chance(5) ? 0 : g.chance(50) ? 4096 * (1 + g.draw(4)) : 1 + g.draw(12000);
		uint64_t fl = 0x22, a = 0;
		const uint64_t len = (n + 4095) & ~4095ull;
		if (g.chance(25) && !areas.empty()) { // fixed, in a live area or beyond everything
			auto& r = areas[g.index(areas.size())];
			fl |= 0x10;
			a = r.a + 4096 * g.draw((r.n - 1) / 4096);
			if (g.chance(10)) a = (mo.end + 4095) & ~4095ull;
			if (n == 0) e.result = err(22);
			else if (a >= mo.end || n > mo.top - a) { e.result = err(12); if (len < n) e.any_result = true; }
			else {
				// replaces whatever is there
				for (uint64_t p = a; p < a + len; p += 4096) { mo.mapped[(p - mo.base) / 4096] = true; memset(&mo.mem[p], 0, std::min<uint64_t>(4096, mo.end - p)); }
				if (len != n) e.loose.push_back({a + n, len - n});   // either zeroed or kept
				bool known = false; for (auto& x : areas) known |= x.a <= a && a + len <= x.a + x.n;
				if (!known) areas.push_back({a, len});
				e.result = a;
			}
			call("mmap", 222, {a, n, 3, fl, ~0ull, 0}, e);
			break;
		}
		if (g.chance(20)) a = g.chance(50) ? mo.base + 4096 * g.draw(8) : g.u64() & ~4095ull;   // a hint
		if (n == 0) { e.result = err(22); call("mmap", 222, {a, n, 3, fl, ~0ull, 0}, e); break; }
		const uint64_t room = mo.end - mo.top;
		if (n > room || len > room) { e.result = err(12); call("mmap", 222, {a, n, 3, fl, ~0ull, 0}, e); g.label("memory exhausted"); break; }
		e.any_result = true;
		call("mmap", 222, {a, n, 3, fl, ~0ull, 0}, e);
		const uint64_t got = m().cpu.reg(4);
		if (got & 4095) fail("mmap:align", fmt("mmap of 0x%lx returned 0x%lx", (unsigned long)n, (unsigned long)got) + where());
		if (got < mo.base || got >= mo.end || len > mo.end - got) fail("mmap:range", fmt("mmap of 0x%lx returned 0x%lx, outside of the mapping area", (unsigned long)n, (unsigned long)got) + where());
		for (uint64_t p = got; p < got + len; p += 4096) if (mo.is_mapped(p)) fail("mmap:overlap", fmt("mmap of 0x%lx returned 0x%lx, where 0x%lx is in use", (unsigned long)n, (unsigned long)got, (unsigned long)p) + where());
		for (uint64_t p = got; p < got + n; p++) if (arena(m())[p]) fail("mmap:zero", fmt("mmap of 0x%lx returned 0x%lx, where byte 0x%lx is %02x", (unsigned long)n, (unsigned long)got, (unsigned long)p, arena(m())[p]) + where());
		for (uint64_t p = got; p < got + len; p += 4096) mo.mapped[(p - mo.base) / 4096] = true;
		mo.top = m().memory.mmap_address();
		areas.push_back({got, len});
		break; }
	case 9: { // munmap, or the guest using its mapping
		if (areas.empty()) return;
		if (g.chance(40)) {
			auto& r = areas[g.index(areas.size())];
			const uint64_t at = r.a + g.draw(r.n - 1), n = std::min<uint64_t>(r.a + r.n - at, 1 + g.draw(5000));
			if (!mo.all_mapped(at, n)) return;
			std::string s(n, (char)(1 + g.draw(254)));
			poke(at, s.data(), n);
			if (rounds < 60) story += fmt("\n  guest writes 0x%lx+0x%lx", (unsigned long)at, (unsigned long)n);
			return;
		}
		const size_t k = g.chance(60) ? areas.size() - 1 : g.index(areas.size());
		uint64_t a = areas[k].a, n = areas[k].n;
		if (g.chance(20)) n -= g.draw(4095);              // the same pages
		else if (g.chance(20) && n > 4096) { const uint64_t c = 4096 * g.range(1, n / 4096 - 1); if (g.chance(50)) { a += c; n -= c; } else n = c; }
		const uint64_t len = (n + 4095) & ~4095ull;
		for (uint64_t p = a; p < a + len; p += 4096) mo.mapped[(p - mo.base) / 4096] = false;
		std::vector<Area> rest;
		for (auto& x : areas) { // what is left of every area
			uint64_t s = 0; bool in = false;
			for (uint64_t p = x.a; p <= x.a + x.n; p += 4096) {
				const bool mp = p < x.a + x.n && mo.is_mapped(p);
				if (mp && !in) { s = p; in = true; }
				if (!mp && in) { rest.push_back({s, p - s}); in = false; }
			}
		}
		areas = rest;
		call("munmap", 215, {a, n}, e);
		mo.top = m().memory.mmap_address();
		for (auto& x : areas) if (x.a + x.n > mo.top) fail("munmap:live", fmt("after munmap(0x%lx, 0x%lx) mappings continue at 0x%lx, below the live area 0x%lx+0x%lx", (unsigned long)a, (unsigned long)n, (unsigned long)mo.top, (unsigned long)x.a, (unsigned long)x.n) + where());
		g.label("~unmapped");
		break; }
	case 10: { // clock_gettime
		const int id = (int)g.pick({0, 1, 4, 5, 6, 7, 2, 3, -1, 99, 17});
		const uint64_t a = ptr(16);
		if (a == 0 || !reach_ok(a, 16)) return;
		struct timespec t0, t1;
		const bool ok = clock_gettime(id, &t0) == 0;
		if (!ok) e.result = err(22);
		else if (!mo.wrt(a, 16)) e.kind = FAULT;
		else e.loose.push_back({a, 16});
		call("clock_gettime", 113, {junk32((uint64_t)id), a}, e);
		if (ok && e.kind == RESULT) {
			clock_gettime(id, &t1);
			int64_t v[2]; memcpy(v, arena(m()) + a, 16);
			auto ns = [](int64_t s, int64_t n) { return (__int128)s * 1000000000 + n; };
			if (v[1] < 0 || v[1] > 999999999 || ns(v[0], v[1]) < ns(t0.tv_sec, t0.tv_nsec) || ns(v[0], v[1]) > ns(t1.tv_sec, t1.tv_nsec))
				fail("clock_gettime:time", fmt("clock %d reads %ld.%09ld, but it was between %ld.%09ld and %ld.%09ld", id, (long)v[0], (long)v[1], (long)t0.tv_sec, t0.tv_nsec, (long)t1.tv_sec, t1.tv_nsec) + where());
		}
		break; }
	case 11: { // gettimeofday
		const uint64_t a = ptr(16);
		if (!reach_ok(a, 16)) return;
		struct timeval t0, t1;
		gettimeofday(&t0, nullptr);
		if (a && !mo.wrt(a, 16)) e.kind = FAULT;
		else if (a) e.loose.push_back({a, 16});
		call("gettimeofday", 169, {a, 0}, e);
		if (a && e.kind == RESULT) {
			gettimeofday(&t1, nullptr);
			int64_t v[2]; memcpy(v, arena(m()) + a, 16);
			auto us = [](int64_t s, int64_t n) { return (__int128)s * 1000000 + n; };
			if (v[1] < 0 || v[1] > 999999 || us(v[0], v[1]) < us(t0.tv_sec, t0.tv_usec) || us(v[0], v[1]) > us(t1.tv_sec, t1.tv_usec))
				fail("gettimeofday:time", fmt("the time reads %ld.%06ld", (long)v[0], (long)v[1]) + where());
		}
		break; }
	case 12: { // nanosleep
		const uint64_t req = ptr(16);
		if (req == 0) return;
		if (mo.wrt(req, 16) && mo.is_mapped(req)) { poke<uint64_t>(req, g.draw(100)); poke<uint64_t>(req + 8, g.draw(999999999)); }
		if (!mo.rd(req, 16)) e.kind = FAULT;
		call("nanosleep", 101, {req, 0}, e);
		break; }
	case 13: e.result = (uint64_t)(int64_t)m().gettid(); call("gettid", 178, {}, e); break;
	case 14: { // identity
		const unsigned k = g.draw(4);
		static const unsigned nr[] = {172, 174, 175, 176, 177};
		static const char* nm[] = {"getpid", "getuid", "geteuid", "getgid", "getegid"};
		e.result = k ? 1000 : 0;
		call(nm[k], nr[k], {}, e);
		break; }
	case 15: { // sched_getaffinity
		const uint64_t n = (uint64_t)g.pick({8, 16, 128, 4, 0, 7, 1024}), a = ptr(8);
		if (!reach_ok(a, 8)) return;
		if (n < 8) e.result = err(22);
		else if (a == 0) return;
		else if (!mo.wrt(a, 8)) e.kind = FAULT;
		else { mo.put<uint64_t>(a, 1); e.result = 8; }
		call("sched_getaffinity", 123, {0, n, a}, e);
		break; }
	case 16: { // readlinkat
		static const char* paths[] = {"/proc/self/exe", "/proc/self/exe2", "/proc/self/ex", "/etc/passwd", "", "/proc/self/exe/"};
		const uint64_t k = g.draw(5), p = ptr(32, false), n = g.chance(60) ? 1 + g.draw(20) : 4096, a = ptr(std::min<uint64_t>(n, 12));
		if (!mo.wrt(p, 32) || !mo.all_mapped(p, 32) || !reach_ok(a, std::min<uint64_t>(n, 12))) return;
		poke(p, paths[k], strlen(paths[k]) + 1);
		if (k != 0) e.result = err(2);
		else {
			const uint64_t len = std::min<uint64_t>(n, 12);
			if (!mo.wrt(a, len)) e.kind = FAULT;
			else { memcpy(&mo.mem[a], "/tmp/program", len); e.result = len; }
		}
		call("readlinkat", 78, {junk32((uint64_t)-100), p, a, n}, e);
		break; }
	case 17: { // getrandom
		const uint64_t n = g.chance(80) ? g.draw(64) : g.draw(3000), a = ptr(n);
		if (!reach_ok(a, n)) return;
		if (n && !mo.wrt(a, n)) { e.kind = FAULT; if (n < MEM) e.loose.push_back({a, n}); if (a > ~0ull - n) e.loose.clear(); }
		else { for (uint64_t i = 0; i < n; i++) mo.mem[a + i] = (uint8_t)(i * 17 + 31); e.result = n; }
		call("getrandom", 278, {a, n, 0}, e);
		break; }
	case 18: { // prlimit64
		const uint64_t r = g.draw(15), a = g.chance(85) ? ptr(16) : 0;
		if (a && (!reach_ok(a, 16) || straddles(a, 16))) return;
		if (a && !mo.wrt(a, 16)) { e.kind = FAULT; e.loose.push_back({a, 16}); if (a > ~0ull - 16) e.loose.clear(); }
		else if (a) { mo.put<uint64_t>(a, r == 3 ? 8u << 20 : r == 7 ? 1024 : ~0ull); mo.put<uint64_t>(a + 8, r == 7 ? 4096 : ~0ull); }
		call("prlimit64", 261, {0, r, 0, a}, e);
		break; }
	case 19: { // ppoll
		const uint64_t n = g.chance(93) ? g.draw(6) : g.chance(50) ? 1025 : g.u64();
		const uint64_t a = ptr(8 * std::min<uint64_t>(n, 7));
		if (n > 1024) { e.kind = ERR; e.etype = (int)loongarch::ILLEGAL_OPERATION; call("ppoll", 73, {a, n, 0, 0, 8}, e); return; }
		if (!reach_ok(a, 8 * n)) return;
		if (!mo.wrt(a, 8 * n)) e.kind = n ? FAULT : EITHER;
		else for (uint64_t i = 0; i < n; i++) {
			const int f = fd(); const uint16_t ev = g.chance(25) ? 0 : (uint16_t)g.draw(0x1f);
			poke<int32_t>(a + 8 * i, f); poke<uint16_t>(a + 8 * i + 4, ev); poke<uint16_t>(a + 8 * i + 6, (uint16_t)g.draw(0xffff));
			const uint16_t rev = f >= 0 && f <= 2 ? ev : 0;
			mo.put<uint16_t>(a + 8 * i + 6, rev);
			if (rev) e.result++;
		}
		call("ppoll", 73, {a, n, 0, 0, 8}, e);
		break; }
	case 20: { // futex without threads
		const unsigned op = (unsigned)g.pick({0, 1, 128, 129, 2, 3, 12, 5});
		e.result = (op & 127) == 0 ? err(11) : (op & 127) == 1 ? 0 : err(38);
		call("futex", 98, {ptr(8), op, g.draw(3), 0}, e);
		break; }
	case 21: { // accepted and ignored
		static const struct { unsigned nr; const char* n; } t[] = {{226, "mprotect"}, {233, "madvise"}, {167, "prctl"}, {25, "fcntl"}, {135, "rt_sigprocmask"}, {99, "set_robust_list"}, {96, "set_tid_address"}};
		auto& x = t[g.draw(6)];
		if (x.nr == 96) e.result = (uint64_t)(int64_t)m().gettid();
		if (x.nr == 25) call(x.n, x.nr, {g.draw(2), g.pick({1, 2, 3, 4}), g.draw(3)}, e);
		else call(x.n, x.nr, {ptr(64, false), g.draw(0x3000), g.draw(7)}, e);
		break; }
	default: e.kind = STOPS; if (g.chance(50)) call("exit", 93, {g.u64()}, e); else call("exit_group", 94, {g.u64()}, e); break;
	}
}
} // namespace

PROP(sys_linux)
{
	World w(g);
	const unsigned n = 1 + g.draw(39);
	for (unsigned i = 0; i < n; i++) w.op(false);
	g.label(mode_name(w.mode));
	if (w.faults) g.label("~refused pointers");
	if (!w.areas.empty()) g.label("~live mappings");
	if (w.oks >= 2) g.nontrivial(w.h);
	if (g.want_sample()) g.sample(w.where());
}
PROP(sys_signals)
{
	World w(g);
	const unsigned n = 3 + g.draw(40);
	for (unsigned i = 0; i < n; i++) w.op(true);
	g.label(mode_name(w.mode));
	if (w.oks >= 3) g.nontrivial(w.h);
	if (g.want_sample()) g.sample(w.where());
}
