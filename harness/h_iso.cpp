// Guest code, whatever it does, stays inside its machine: it changes only the
// writable part of its memory and its registers, learns nothing from memory it
// may not read, and can only ever cause machine exceptions in the host.
#include "prog.hpp"
#include "elfimg.hpp"
#include <libloong/native/heap.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
constexpr uint64_t CODE_VA = 0x10000, DATA_VA = 0x40000, DATA_SIZE = 0x8000, MEM = 0x80000;
constexpr uint64_t STACK = 0x10000, BRK = 0x8000;
constexpr uint64_t TEXT = DATA_VA + DATA_SIZE - 256;   // a name of a file

const int LINUX_NR[] = {29, 25, 66, 93, 94, 96, 99, 98, 63, 64, 56, 57, 73, 80, 101, 123, 169, 214, 222, 226, 215, 261, 78, 278, 113, 178, 172, 174, 175, 176, 177, 130, 131, 132, 134, 135, 233, 167, 291,
	124, 220, 435, 422, 139, 0, 1, 17, 300};
const int NATIVE_NR[] = {495, 496, 497, 498, 499, 500, 501, 502, 503, 507, 508, 509, 510, 511};

// an arena with inaccessible memory right behind its over-allocation
struct GuardedArena {
	uint8_t* map = nullptr; size_t len = 0; uint8_t* arena = nullptr;
	static constexpr size_t AFTER = 1ull << 24, BEFORE = 1ull << 20;
	GuardedArena()
	{
		len = BEFORE + MEM + 4096 + AFTER;
		map = (uint8_t*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (map == MAP_FAILED) abort();
		mprotect(map + BEFORE, MEM + 4096, PROT_READ | PROT_WRITE);
		arena = map + BEFORE + 4096 - LA_OVER_ALLOCATE_SIZE;
	}
	void clear() { madvise(map + BEFORE, MEM + 4096, MADV_DONTNEED); memset(map + BEFORE, 0xA5, 4096 - LA_OVER_ALLOCATE_SIZE); }
	bool canary_ok() const { for (size_t i = 0; i < 4096 - LA_OVER_ALLOCATE_SIZE; i++) if (map[BEFORE + i] != 0xA5) return false; return true; }
};
GuardedArena& guarded() { static GuardedArena g; return g; }

uint64_t hmix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ull + b; return isagen::bgmix(s); }

struct Plan {
	bool threads, heap, accel, linux_setup, custom, sharing, verbose;
	Mode mode;
	std::vector<uint32_t> code;
	uint64_t regs[8][32];
	uint64_t vseed, dseed, pool[24];
	unsigned rounds, limit, refill_pct;
	uint64_t start;
};

uint64_t interesting(Gen& g)
{
	static const uint64_t edge[] = {0, CODE_VA, DATA_VA, DATA_VA + DATA_SIZE, MEM, MEM - STACK, 1ull << 31, 1ull << 32, 1ull << 47, 1ull << 63, ~0ull, MEM + LA_OVER_ALLOCATE_SIZE, DATA_VA + DATA_SIZE + BRK, DATA_VA + DATA_SIZE + BRK + STACK};
	switch (g.weighted({40, 14, 12, 10, 10, 8, 6})) {
	case 0: if (g.chance(12)) return TEXT; return DATA_VA + g.draw(DATA_SIZE - 512);
	case 1: { const uint64_t e = edge[g.draw(sizeof edge / sizeof *edge - 1)]; const int64_t d = (int64_t)g.draw(160) - 80; return e + d; }
	case 2: return g.draw(64);
	case 3: return g.u64();
	case 4: return CODE_VA + 4 * g.draw(400);
	case 5: return DATA_VA + DATA_SIZE + g.draw(MEM - DATA_VA - DATA_SIZE);
	default: return g.draw(CODE_VA);
	}
}

uint32_t table_word(Gen& g, bool branches)
{
	const auto& t = ref::table();
	for (int i = 0; i < 20; i++) {
		const auto& in = t[g.index(t.size())];
		if (!branches && (isagen::is_branch(in) || in.fmt == ref::SYSFMT)) continue;
		uint32_t w = in.match | ((uint32_t)g.raw64() & ~in.mask);
		if (isagen::is_branch(in) && in.fmt != ref::JIRL && g.chance(80)) {   // near
			const int64_t off = (int64_t)g.draw(40) - (g.chance(30) ? 20 : 0);
			if (in.fmt == ref::B16) w = (w & ~0x3fffc00u) | (uint32_t)((off & 0xffff) << 10);
			else if (in.fmt == ref::B26) w = (w & ~0x3ffffffu) | (uint32_t)((off & 0xffff) << 10) | (uint32_t)((off >> 16) & 0x3ff);
			else w = (w & ~0x3fffc1fu) | (uint32_t)((off & 0xffff) << 10) | (uint32_t)((off >> 16) & 0x1f);
		}
		return w;
	}
	return 0x03400000;
}
// is this word a branch (or a system call that returns to $ra), as far as its major opcode goes?
bool branchy(uint32_t w) { return (w >> 30) == 1 || (w >> 15) == 0x56; }

Plan make_plan(Gen& g)
{
	Plan p;
	p.mode = g.pick({FAST, STEP, INACC});
	p.threads = g.chance(40); p.heap = g.chance(40); p.accel = g.chance(40); p.linux_setup = g.chance(40);
	p.custom = g.chance(50); p.sharing = g.chance(20); p.verbose = g.chance(10);
	const bool loops = p.mode != INACC;
	Asm a(p.code, CODE_VA);
	const unsigned items = 2 + g.draw(40);
	const size_t style = g.weighted({30, 30, 25, 15});
	const unsigned soup = style == 1 ? g.draw(4) : 0;   // threads, signals, heap, or anything
	if (soup == 1) p.threads = true;
	if (soup == 3) p.heap = true;
	for (unsigned i = 0; i < items; i++) {
		const size_t k = style == 0 ? g.weighted({60, 15, 15, 10}) : style == 1 ? g.weighted({20, 5, 70, 5}) : style == 2 ? g.weighted({15, 70, 10, 5}) : g.weighted({40, 20, 30, 10});
		switch (k) {
		case 0: { uint32_t w = table_word(g, loops); if (!loops && branchy(w)) w = 0x03400000; a.raw(w); break; }
		case 1: { uint32_t w = (uint32_t)g.raw64(); if (!loops && branchy(w)) w = 0x03400000; a.raw(w); break; }
		case 2: {
			// a system call with chosen arguments, some of them earlier results
			const unsigned n = 1 + g.draw(5);
			for (unsigned r = 0; r < n; r++) {
				if (g.chance(25)) { a.ori(4 + r, 23 + g.draw(3), 0); continue; }
				const uint64_t v = soup && g.chance(70) ? (g.chance(50) ? g.draw(6) : g.chance(50) ? DATA_VA + 8 * g.draw(20) : CODE_VA + 4 * g.draw(100)) : interesting(g);
				if (v < 2048) a.ori(4 + r, 0, v); else a.li(4 + r, v);
			}
			static const int THREAD_NR[] = {220, 220, 435, 131, 131, 130, 124, 98, 422, 93, 178, 96}, SIGNAL_NR[] = {134, 134, 130, 131, 132, 135, 139, 220}, HEAP_NR[] = {495, 495, 496, 497, 498, 499, 508, 222, 215, 214};
			int nr;
			if (soup == 1) nr = THREAD_NR[g.draw(sizeof THREAD_NR / sizeof *THREAD_NR - 1)];
			else if (soup == 2) nr = SIGNAL_NR[g.draw(sizeof SIGNAL_NR / sizeof *SIGNAL_NR - 1)];
			else if (soup == 3) nr = HEAP_NR[g.draw(sizeof HEAP_NR / sizeof *HEAP_NR - 1)];
			else if (g.chance(35)) nr = NATIVE_NR[g.draw(sizeof NATIVE_NR / sizeof *NATIVE_NR - 1)];
			else nr = LINUX_NR[g.draw(sizeof LINUX_NR / sizeof *LINUX_NR - 1)];
			// a name that exists, and room for what it says
			if (nr == 78 && g.chance(50)) { a.li(5, TEXT); a.li(6, DATA_VA + g.draw(0x1000)); a.ori(7, 0, g.draw(400)); }
			// thread and signal calls may go anywhere
			if (!loops && (nr == 220 || nr == 435 || nr == 130 || nr == 131 || nr == 124 || nr == 98 || nr == 422 || nr == 93 || nr == 139)) nr = 178;
			if (g.chance(4)) { a.li(A7, g.u64()); a.raw(0x002b0000); }
			else if (loops && g.chance(10)) { a.li(RA, a.here() + 20); a.raw(0x002b0000 | (uint32_t)nr); }
			else { a.ori(A7, 0, nr); a.raw(0x002b0000); }
			if (g.chance(40)) a.ori(23 + g.draw(3), 4, 0);
			break; }
		default: {
			// a memory access through an interesting pointer
			const unsigned r = 12 + g.draw(3);
			a.li(r, interesting(g));
			const auto& pool = isagen::pool(CL_MEM);
			const auto& in = *pool[g.index(pool.size())];
			uint32_t w = in.match | ((uint32_t)g.raw64() & ~in.mask);
			w = (w & ~(31u << 5)) | r << 5;
			if (g.chance(60) && in.fmt != ref::R3 && in.fmt != ref::FX && in.fmt != ref::VX && in.fmt != ref::XX && in.fmt != ref::AM) w &= ~(0xffcu << 10) | in.mask;
			a.raw(w);
			break; }
		}
	}
	if (g.chance(70)) a.stop();
	for (int r = 0; r < 8; r++) for (int i = 1; i < 32; i++) p.regs[r][i] = r == 0 || g.chance(30) ? interesting(g) : DATA_VA + 64 * (i + 8 * r);
	p.vseed = g.draw(~0ull); p.dseed = g.draw(0xffff);
	for (auto& v : p.pool) v = interesting(g);
	p.rounds = 1 + g.draw(6); p.limit = 1 + g.draw(2000); p.refill_pct = g.draw(100);
	p.start = g.chance(90) ? CODE_VA : CODE_VA + 4 * g.draw(p.code.size());
	return p;
}

struct Outcome {
	std::string events;
	std::string out;
	uint64_t x[32]; std::vector<uint8_t> v; uint8_t fcc; uint64_t pc;
	std::vector<uint8_t> mem;
	std::string broken;   // a violation seen on the way
	std::string kind;
	unsigned steps = 0, calls = 0;
};

int out_fd() { static int fd = memfd_create("guest-output", 0); return fd; }
// the clock calls are real, and whatever used them is not repeatable
bool g_clock;
Machine::syscall_t *g_clock_gettime, *g_gettimeofday;
void install_syscalls()
{
	Machine::setup_linux_syscalls();
	auto** h = Machine::get_syscall_handlers();
	g_clock_gettime = h[113]; g_gettimeofday = h[169];
	Machine::install_syscall_handler(113, [](Machine& m) { g_clock = true; g_clock_gettime(m); });
	Machine::install_syscall_handler(169, [](Machine& m) { g_clock = true; g_gettimeofday(m); });
}

// what the host left in its free memory and on its stack
__attribute__((noinline)) void leave_behind(uint64_t secret)
{
	mallopt(M_PERTURB, (int)(secret & 0xff));
	volatile uint8_t garbage[48 * 1024];
	memset(const_cast<uint8_t*>(garbage), (int)(secret & 0xff), sizeof garbage);
	asm volatile("" : : "r"(garbage) : "memory");
}

Outcome run(const Plan& p, uint64_t secret)
{
	Outcome o;
	struct Unperturb { ~Unperturb() { mallopt(M_PERTURB, 0); } } unperturb;
	leave_behind(secret);
	Image im;
	im.code_va = CODE_VA; im.data_va = DATA_VA; im.data_size = DATA_SIZE;
	im.code = p.code;
	im.data.resize(DATA_SIZE);
	for (size_t i = 0; i + 8 <= DATA_SIZE; i += 8) {
		uint64_t h = hmix(p.dseed, i);
		uint64_t v = (h & 7) == 0 ? h : (h & 7) == 1 ? (h >> 8) & 63 : (h & 7) == 2 ? (uint64_t)p.code[(h >> 8) % p.code.size()] << 32 | p.code[(h >> 40) % p.code.size()] : p.pool[(h >> 8) % 24];
		memcpy(&im.data[i], &v, 8);
	}
	memcpy(&im.data[TEXT - DATA_VA], "/proc/self/exe", 15);
	// (an accelerated function returns to $ra, which may loop for ever without a limit)
	if (p.mode != INACC) im.syms = {{"malloc", CODE_VA, 4}, {"free", CODE_VA, 4}, {"__memcpy_lsx", CODE_VA + 4, 4}};
	Loaded l;
	l.file = build(im);
	l.opts = vm::options();
	l.opts->use_shared_execute_segments = p.sharing;
	l.opts->verbose_syscalls = p.verbose;
	l.opts->memory_max = MEM; l.opts->stack_size = STACK; l.opts->brk_size = BRK;
	if (p.custom) {
		guarded().clear();
		l.opts->custom_arena_pointer = guarded().arena;
		l.opts->custom_arena_size = MEM + LA_OVER_ALLOCATE_SIZE;
	}
	fflush(stdout);
	const int saved = dup(1);
	if (ftruncate(out_fd(), 0) != 0) abort();
	lseek(out_fd(), 0, SEEK_SET);
	dup2(out_fd(), 1);
	auto restore = [&] { fflush(stdout); dup2(saved, 1); close(saved); };
	try {
		l.m = std::make_unique<Machine>(std::string_view(l.file), *l.opts);
		Machine& m = *l.m;
		m.set_options(l.opts);
		install_syscalls();
		if (p.threads) m.setup_posix_threads();
		if (p.linux_setup) m.setup_linux({"program", "arg"}, {"A=B"});
		if (p.accel) m.setup_accelerated_syscalls();
		if (p.heap) m.setup_accelerated_heap(m.memory.mmap_allocate(0x8000), 0x8000);
		// time must not vary
		Machine::set_rdtime([](Machine& mm) -> uint64_t { return mm.instruction_counter(); });
		uint8_t* mem = arena(m);
		const uint64_t lo = m.memory.rodata_start(), wr = m.memory.data_start(), end = m.memory.arena_size();
		for (uint64_t i = 0; i < lo; i++) mem[i] = (uint8_t)(secret + i * (2 * secret + 1));
		std::vector<uint8_t> before(mem, mem + wr);
		auto& r = m.cpu.registers();
		auto set_regs = [&](unsigned k) {
			for (int i = 1; i < 32; i++) if (i != 3 || p.pool[0] & 1) if ((p.regs[0][i] >> 3) % 100 < p.refill_pct || k == 0) r.get(i) = p.regs[k & 7][i];
		};
		set_regs(0);
		for (int i = 0; i < 32; i++) { uint64_t s = hmix(p.vseed, i); for (int k = 0; k < 4; k++) { uint64_t x = isagen::bgmix(s); memcpy((uint8_t*)&r.getvr(i) + 8 * k, &x, 8); } }
		r.pc = p.start;
		for (unsigned round = 0; round < p.rounds; round++) {
			std::string ev;
			leave_behind(secret);
			try {
				m.set_max_instructions(~0ull);
				if (p.mode == FAST) { bool done = m.simulate(p.limit, 0); ev = done ? "done" : "limit"; ev += fmt(" after %lu", (unsigned long)m.instruction_counter()); }
				else if (p.mode == STEP) {
					unsigned n = 0;
					while (n < p.limit && !m.stopped()) { m.cpu.step_one(); n++; }
					ev = fmt("stepped %u", n);
				} else { m.cpu.simulate_inaccurate(r.pc); ev = "done"; }
				o.events += fmt("[pc 0x%lx %s]", (unsigned long)r.pc, ev.c_str());
				if (ev.compare(0, 5, "limit") == 0) { o.steps++; continue; }
				break;
			} catch (const MachineException& e) {
				o.events += fmt("[pc 0x%lx exception %d %s data 0x%lx]", (unsigned long)r.pc, (int)e.type(), e.what(), (unsigned long)e.data());
			}
			o.steps++;
			if (m.memory.arena_size() != end || m.memory.data_start() != wr || m.memory.rodata_start() != lo || arena(m) != mem) { o.kind = "layout"; o.broken = "the memory layout changed"; }
			if (r.get(0) != 0) { o.kind = "r0"; o.broken = "$zero changed"; }
			set_regs(round + 1);
			r.pc += 4;
			if (r.pc < CODE_VA || r.pc >= CODE_VA + p.code.size() * 4) break;
		}
		if (memcmp(before.data(), mem, wr) != 0) {
			uint64_t i = 0; while (before[i] == mem[i]) i++;
			o.kind = i < lo ? "wrote-hidden" : "wrote-readonly";
			o.broken = fmt("guest code changed address 0x%lx from %02x to %02x; writable memory starts at 0x%lx", (unsigned long)i, before[i], mem[i], (unsigned long)wr);
		}
		if (p.custom && !guarded().canary_ok()) { o.kind = "wrote-before"; o.broken = "guest code wrote in front of its memory"; }
		for (int i = 0; i < 32; i++) o.x[i] = r.get(i);
		o.v.resize(32 * 32);
		for (int i = 0; i < 32; i++) memcpy(&o.v[i * 32], &r.getvr(i), 32);
		o.fcc = fcc_of(m); o.pc = r.pc;
		o.mem.assign(mem + lo, mem + end);
		l.m.reset();
	} catch (...) {
		restore();
		throw;
	}
	restore();
	const off_t n = lseek(out_fd(), 0, SEEK_END);
	o.out.resize(n);
	if (n && pread(out_fd(), &o.out[0], n, 0) != n) abort();
	return o;
}
std::string difference(const Outcome& a, const Outcome& b)
{
	if (a.events != b.events) return "what happened differs:\n   " + a.events + "\n   " + b.events;
	if (a.out != b.out) return "output differs";
	if (a.pc != b.pc) return "pc differs";
	for (int i = 0; i < 32; i++) if (a.x[i] != b.x[i]) return fmt("r%d differs: 0x%lx, 0x%lx", i, (unsigned long)a.x[i], (unsigned long)b.x[i]);
	if (a.v != b.v) { size_t i = 0; while (a.v[i] == b.v[i]) i++; return fmt("v%zu differs", i / 32); }
	if (a.fcc != b.fcc) return "fcc differs";
	if (a.mem != b.mem) { size_t i = 0; while (a.mem[i] == b.mem[i]) i++; return fmt("memory differs at 0x%zx: %02x, %02x", (size_t)CODE_VA + i, a.mem[i], b.mem[i]); }
	return "";
}
} // namespace

PROP(iso_guest)
{
	const Plan p = make_plan(g);
	g_clock = false;
	std::string head = fmt("%s dispatch%s%s%s%s%s, limit %u\n", mode_name(p.mode), p.threads ? ", threads" : "", p.heap ? ", native heap" : "", p.accel ? ", accelerated" : "", p.linux_setup ? ", program start" : "", p.custom ? ", guarded arena" : "", p.limit);
	const Outcome a = run(p, 0x11);
	auto listing = [&] {
		std::string s;
		Machine m{std::string_view{}, *vm::options()};
		for (size_t i = 0; i < p.code.size() && i < 80; i++) s += fmt("  0x%lx: %08x  %s\n", (unsigned long)(CODE_VA + 4 * i), p.code[i], dis(m, p.code[i]).c_str());
		return s + "  " + a.events;
	};
	if (!a.broken.empty()) fail(a.kind, a.broken + "\n" + head + listing());
	const Outcome b = run(p, 0x77);
	if (!b.broken.empty()) fail(b.kind, b.broken + "\n" + head + listing());
	std::string d = difference(a, b);
	if (!d.empty()) {
		const Outcome c = run(p, 0x11), e = run(p, 0x77);
		if (!g_clock && difference(a, c).empty() && difference(b, e).empty()) fail("leak", "the result depends on memory the guest may not read: " + d + "\n" + head + listing());
		g.label("not repeatable");
	}
	g.label(mode_name(p.mode));
	if (p.custom) g.label("guarded arena");
	if (a.events.find("exception") != std::string::npos) g.label("exceptions");
	if (a.steps >= 2) g.label("several rounds");
	if (!a.out.empty()) g.label("output");
	g.nontrivial(hash_bytes(p.code.data(), p.code.size() * 4, p.dseed));
	if (g.want_sample()) g.sample(head + listing());
}
