// Guest threads: the cooperative scheduler, futexes, thread creation and exit,
// against a model that runs every thread on the reference CPU.
#include "prog.hpp"
#include "elfimg.hpp"
#include <libloong/posix/threads.hpp>
#include <deque>
#include <map>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
constexpr uint64_t CODE_VA = 0x10000, DATA_VA = 0x40000, SIZE_SMALL = 0x48000, G4 = 1ull << 32;
constexpr unsigned NR_LOG = 401;
constexpr uint64_t WORDS = DATA_VA;            // shared 4-byte words, 16 bytes apart
constexpr unsigned NWORDS = 6;
constexpr uint64_t ARGS = DATA_VA + 0x1000;    // clone3 arguments
constexpr uint64_t PRIVATE = DATA_VA + 0x2000; // per script
constexpr uint32_t F_SETTLS = 0x80000, F_PSET = 0x100000, F_CCLEAR = 0x200000, F_CSET = 0x1000000;
constexpr uint32_t F_THREAD = 0x3d0f00 & ~(F_PSET | F_CCLEAR | F_CSET | F_SETTLS);

// ---- the model ----
enum Why { W_OPEN, W_STOPPED, W_THREW, W_END };
struct MThread { ref::CPU c; uint64_t clear_tid = 0, word = 0; uint32_t bits = 0; };
struct Snap { ref::CPU c; int tid; std::vector<uint8_t> data; std::vector<int> suspended, blocked; std::vector<int> alive; };
struct Model {
	ref::Mem mem;
	ref::CPU c;                       // the running thread
	std::map<int, MThread> t;
	std::deque<int> suspended; std::vector<int> blocked;
	int cur = 0; unsigned counter = 0;
	std::vector<Snap> log;
	Why why = W_OPEN;
	struct { uint64_t handler, mask; bool onstack; } sig[65] = {};
	std::map<int, std::array<uint64_t, 3>> ss;     // every thread's signal stack
	unsigned signals = 0;
	unsigned switches = 0, waits = 0, wakes = 0, created = 0, kills = 0, spurious = 0, steps = 0;
	std::vector<uint32_t> const* code = nullptr;
	std::string trace;

	uint32_t load(uint64_t a) { uint32_t v = 0; if (a < mem.data.size()) memcpy(&v, &mem.data[a], 4); return v; }
	void store(uint64_t a, uint32_t v) { if (a < mem.data.size()) memcpy(&mem.data[a], &v, 4); }
	void save(uint64_t result) { t[cur].c = c; t[cur].c.x[4] = result; }
	void resume(int id) { cur = id; c = t[id].c; switches++; }
	void next()
	{
		if (!suspended.empty()) { int id = suspended.front(); suspended.pop_front(); resume(id); return; }
		// all are blocked: the main thread continues
		for (size_t i = 0; i < blocked.size(); i++) if (blocked[i] == 0) { blocked.erase(blocked.begin() + i); break; }
		spurious++;
		resume(0);
	}
	unsigned wake(uint64_t word, uint32_t bits, uint64_t max)
	{
		unsigned n = 0;
		for (size_t i = 0; i < blocked.size() && n < max;) {
			auto& w = t[blocked[i]];
			if (w.word == word && (w.bits & bits)) { suspended.push_back(blocked[i]); blocked.erase(blocked.begin() + i); n++; }
			else i++;
		}
		return n;
	}
	// returns true when the whole program ends
	bool exit_thread(int id)
	{
		if (t[id].clear_tid) { store(t[id].clear_tid, 0); wakes += wake(t[id].clear_tid, ~0u, 1); }
		if (id == 0) return true;
		for (size_t i = 0; i < suspended.size(); i++) if (suspended[i] == id) { suspended.erase(suspended.begin() + i); break; }
		for (size_t i = 0; i < blocked.size(); i++) if (blocked[i] == id) { blocked.erase(blocked.begin() + i); break; }
		t.erase(id);
		if (id == cur) next();
		return false;
	}
	int create(uint32_t flags, uint64_t stack, uint64_t ptid, uint64_t ctid, uint64_t tls)
	{
		if (t.size() >= 50) { why = W_THREW; return 0; }   // a documented limit of the library
		const int id = ++counter;
		created++;
		auto& n = t[id];
		if (flags & F_CSET) store(ctid, id);
		if (flags & F_PSET) store(ptid, id);
		if (flags & F_CCLEAR) n.clear_tid = ctid;
		save(id); suspended.push_back(cur);
		cur = id;
		c.x[2] = tls; c.x[3] = stack; c.x[4] = 0;
		switches++;
		return id;
	}
	void snap()
	{
		Snap s; s.c = c; s.c.mem = nullptr; s.tid = cur;
		s.data.assign(mem.data.begin() + DATA_VA, mem.data.end());
		s.suspended.assign(suspended.begin(), suspended.end()); s.blocked = blocked;
		for (auto& [id, x] : t) { (void)x; s.alive.push_back(id); }
		log.push_back(std::move(s));
	}
	void deliver(unsigned n)
	{
		auto& s = sig[n & 63];
		signals++;
		if (s.onstack) c.x[3] = ss[cur][0] + ss[cur][2];
		c.x[4] = n; c.pc = s.handler;
	}
	void syscall()
	{
		const uint64_t nr = c.x[11], a0 = c.x[4], a1 = c.x[5], a2 = c.x[6], a3 = c.x[7], a4 = c.x[8], a5 = c.x[9];
		c.pc += 4;
		trace += fmt("\n    thread %d: pc 0x%lx call %lu(0x%lx, 0x%lx, 0x%lx, .., 0x%lx)", cur, (unsigned long)c.pc - 4, (unsigned long)nr, (unsigned long)a0, (unsigned long)a1, (unsigned long)a2, (unsigned long)a5);
		switch (nr) {
		case NR_LOG: snap(); break;
		case 93: if (exit_thread(cur)) why = W_STOPPED; break;
		case 94: why = W_STOPPED; break;
		case 96: t[cur].clear_tid = a0; c.x[4] = cur; break;
		case 99: c.x[4] = 0; break;
		case 124:
			if (!suspended.empty()) { save(0); suspended.push_back(cur); next(); } else c.x[4] = 0;
			break;
		case 178: c.x[4] = cur; break;
		case 98: case 422: {
			const unsigned op = a1 & 15; const bool bitset = op >= 9;
			if (op == 0 || op == 9) {
				waits++;
				if (load(a0) == (uint32_t)a2) {
					if (!suspended.empty() || t.size() > 1) {
						save(0); t[cur].word = a0; t[cur].bits = bitset ? (uint32_t)a5 : ~0u;
						blocked.push_back(cur);
						next();
					} else { store(a0, 0); c.x[4] = 0; spurious++; }
				} else if (!suspended.empty()) { save((uint64_t)-11); suspended.push_back(cur); next(); }
				else c.x[4] = (uint64_t)-11;
			} else if (op == 1 || op == 10) {
				const unsigned n = wake(a0, bitset ? (uint32_t)a5 : ~0u, (uint64_t)(int64_t)(int32_t)a2);
				wakes += n; c.x[4] = n;
			} else c.x[4] = (uint64_t)-22;
			break; }
		case 131: {
			const int id = (int)a1; const int sig = (int)a2;
			if (!t.count(id)) { why = W_STOPPED; break; }
			if (sig == 0) { c.x[4] = 0; break; }
			if (this->sig[sig & 63].handler) {
				if (id != cur) { why = W_THREW; break; }      // where it runs is not defined
				deliver(sig);
				break;
			}
			kills++;
			const bool self = id == cur;
			if (exit_thread(id)) { why = W_STOPPED; break; }
			if (!self) c.x[4] = 0;
			break; }
		case 132: {
			auto& s = ss[cur]; const auto old = s;
			if (a0) memcpy(s.data(), &mem.data[a0], 24);
			if (a1) memcpy(&mem.data[a1], old.data(), 24);
			c.x[4] = 0;
			break; }
		case 134: {
			auto& s = sig[a0 & 63];
			const uint64_t old[3] = {s.handler, s.onstack ? 0x08000000ull : 0, s.mask};
			if (a1) { uint64_t v[3]; memcpy(v, &mem.data[a1], 24); s.handler = v[0]; s.onstack = v[1] & 0x08000000; s.mask = v[2]; }
			if (a2) memcpy(&mem.data[a2], old, 24);
			c.x[4] = 0;
			break; }
		case 130: {
			if (sig[a1 & 63].handler) deliver(a1); else c.x[4] = 0;
			break; }
		case 220: create((uint32_t)a0, a1, a2, a3, a4 ? a4 : c.x[2]); break;
		case 435: {
			uint64_t f[11];
			if (a1 < 88) { c.x[4] = (uint64_t)-28; break; }
			memcpy(f, &mem.data[a0], 88);
			if (f[9]) { c.x[4] = (uint64_t)-1; break; }
			create((uint32_t)f[0], f[5] + f[6], f[3], f[2], f[0] & F_SETTLS ? f[7] : c.x[2]);
			break; }
		}
	}
	void run(unsigned max)
	{
		c.mem = &mem;
		t[0];
		while (why == W_OPEN && steps < max) {
			if (c.pc & 3 || c.pc < CODE_VA || c.pc >= CODE_VA + code->size() * 4) { why = W_THREW; break; }
			const uint32_t w = (*code)[(c.pc - CODE_VA) / 4];
			if (w == STOP_WORD) { why = W_END; break; }
			steps++;
			if (w == prog::SYSCALL_WORD) { syscall(); continue; }
			if (c.step(w) != ref::OK) { why = W_THREW; break; }
		}
	}
};

// ---- programs ----
struct Prog {
	std::vector<uint32_t> code;
	std::vector<uint8_t> data;
	bool far = false;
	uint64_t size = SIZE_SMALL;
};
uint64_t word(Gen& g, bool far, unsigned n) { return WORDS + 16 * g.draw(n - 1) + (far && g.chance(50) ? G4 : 0); }
void arg(Asm& a, unsigned r, uint64_t v) { if (v < 2048) a.ori(r, 0, v); else a.li(r, v); }
void call(Asm& a, unsigned nr) { a.ori(A7, 0, nr); a.raw(prog::SYSCALL_WORD); }

void work(Gen& g, Asm& a)
{
	const unsigned n = 1 + g.draw(4);
	auto reg = [&] { unsigned r = 1 + g.draw(30); return r == 1 || r == 3 || r == 26 ? 12u : r; };
	for (unsigned i = 0; i < n; i++) {
		const unsigned rd = reg(), rj = reg(), rk = reg();
		switch (g.draw(7)) {
		case 0: a.raw(0x00108000u | rk << 10 | rj << 5 | rd); break;   // add.d
		case 1: a.raw(0x00158000u | rk << 10 | rj << 5 | rd); break;   // xor
		case 2: a.addi_d(rd, rj, (int)g.draw(4000) - 2000); break;
		case 3: a.raw(0x769f0000u | (rj << 5 & 0x3e0) | (unsigned)g.draw(31)); break;   // xvreplgr2vr.b
		case 4: a.raw(0x769f0000u | rj << 5 | (unsigned)g.draw(31)); break;   // xvreplgr2vr.d
		case 5: a.raw(0x0114a800u | rj << 5 | (unsigned)g.draw(31)); break;   // movgr2fr.d
		case 6: a.raw(0x0114d800u | rj << 5 | (unsigned)g.draw(7)); break;   // movgr2cf
		default: a.li(rd, g.raw64()); break;
		}
	}
}
Prog make(Gen& g)
{
	Prog p;
	p.far = g.chance(8);
	if (p.far) p.size = G4 + SIZE_SMALL;
	const unsigned nscripts = 1 + g.draw(4), nwords = g.chance(50) ? 1 : 1 + g.draw(NWORDS - 1);
	Asm a(p.code, CODE_VA);
	p.data.resize(SIZE_SMALL - DATA_VA);
	auto poke = [&](uint64_t addr, uint64_t v, unsigned n) { memcpy(&p.data[addr - DATA_VA], &v, n); };
	for (unsigned i = 0; i < NWORDS; i++) { poke(WORDS + 16 * i, g.chance(50) ? 0 : g.draw(3), 4); poke(WORDS + 16 * i + 4, 0x5a5a5a5a, 4); poke(WORDS + 16 * i + 8, 0x1122334455667788ull, 8); }
	std::vector<uint64_t> start(nscripts + 1);
	// two signal handlers, which return to $ra
	const bool sigs = g.chance(30);
	uint64_t handler[2] = {};
	size_t skip = 0;
	if (sigs) {
		skip = p.code.size(); a.nop();
		for (auto& h : handler) { h = a.here(); if (g.chance(30)) work(g, a); call(a, NR_LOG); if (g.chance(30)) { call(a, 124); call(a, NR_LOG); } a.li(12, 0); a.ret(); }
		p.code[skip] = 0x50000000u | (uint32_t)((p.code.size() - skip) & 0xffff) << 10;
		for (unsigned i = 0; i < 4; i++) { poke(PRIVATE + 0x100 + 32 * i, g.chance(85) ? handler[g.draw(1)] : 0, 8); poke(PRIVATE + 0x108 + 32 * i, g.chance(60) ? 0x08000000 : 0, 8); poke(PRIVATE + 0x110 + 32 * i, g.raw64(), 8); }
		for (unsigned i = 0; i < 6; i++) { poke(PRIVATE + 0x200 + 32 * i, DATA_VA + 0x4000 + 0x100 * i, 8); poke(PRIVATE + 0x208 + 32 * i, 0, 8); poke(PRIVATE + 0x210 + 32 * i, 16 * g.draw(16), 8); }
	}
	struct Fix { size_t at; unsigned script; };
	std::vector<Fix> fixes;
	unsigned clones = 0;
	for (unsigned s = 0; s <= nscripts; s++) {
		start[s] = a.here();
		const bool child = s != 0;
		const unsigned n = 2 + g.draw(child ? 10 : 16);
		const bool loop = g.chance(25);
		uint64_t top = 0;
		if (!child && sigs) for (unsigned i = 1; i <= 2; i++) if (g.chance(80)) { arg(a, A0, i); arg(a, A1, PRIVATE + 0x100 + 32 * g.draw(3)); arg(a, A2, 0); call(a, 134); }
		if (loop) { arg(a, 26, 2 + g.draw(1)); top = a.here(); }
		for (unsigned i = 0; i < n; i++) {
			switch (g.weighted({14, 14, 14, 18, 16, 8, 12, 4, 2, 2, 2, 1, sigs ? 30u : 0u})) {
			case 0: work(g, a); break;
			case 1: call(a, NR_LOG); break;
			case 2: call(a, 124); break;
			case 3: case 4: {
				// futex operations
				const bool wait = g.chance(50), bits = g.chance(30);
				const uint64_t w = word(g, p.far, nwords);
				arg(a, A0, w);
				arg(a, A1, (wait ? (bits ? 9 : 0) : (bits ? 10 : 1)) | (g.chance(50) ? 128 : 0) | (g.chance(10) ? 256 : 0));
				if (wait) arg(a, A2, w >= G4 ? g.draw(4) / 4 : g.chance(60) ? 0 : g.draw(3)); else arg(a, A2, g.chance(20) ? 0x7fffffff : 1 + g.draw(2));
				arg(a, 7, g.draw(1) * DATA_VA);
				arg(a, 9, g.chance(70) ? 1 + g.draw(6) : g.chance(50) ? 0xffffffffu : 0x80000000u);
				call(a, g.chance(50) ? 98 : 422);
				if (g.chance(60)) call(a, NR_LOG);
				break; }
			case 5: {
				arg(a, 12, WORDS + 16 * g.draw(nwords - 1));
				arg(a, 13, g.chance(60) ? 0 : g.draw(3));
				a.st_w(13, 12, 0);
				break; }
			case 6: {
				if (!nscripts || clones >= 8) { call(a, 178); break; }
				const unsigned j = 1 + g.draw(nscripts - 1);
				const uint32_t flags = F_THREAD | F_SETTLS | (g.chance(40) ? F_PSET : 0) | (g.chance(40) ? F_CSET : 0) | (g.chance(60) ? F_CCLEAR : 0);
				const uint64_t ptid = WORDS + 16 * g.draw(nwords - 1), ctid = WORDS + 16 * g.draw(nwords - 1), tls = g.u64() | 1, stack = DATA_VA + 0x3000 + 16 * g.draw(100);
				if (g.chance(60)) {
					const bool settls = g.chance(85);
					arg(a, A0, settls ? flags : flags & ~F_SETTLS); a.li(A1, stack); arg(a, A2, ptid); arg(a, 7, ctid); if (settls) a.li(8, tls); else arg(a, 8, 0);
					call(a, 220);
				} else {
					const uint64_t at = ARGS + 96 * clones;
					const uint64_t f[11] = {g.chance(85) ? flags : flags & ~F_SETTLS, 0, ctid, ptid, 0, stack - 64, 64, tls, WORDS, g.chance(8) ? 1u : 0u, 0};
					for (int k = 0; k < 11; k++) poke(at + 8 * k, f[k], 8);
					arg(a, A0, at); arg(a, A1, g.chance(5) ? 64 : 88);
					call(a, 435);
				}
				clones++;
				call(a, NR_LOG);
				a.bnez(A0, 8);
				fixes.push_back({p.code.size(), j});
				a.nop();
				break; }
			case 7: call(a, 178); break;
			case 8: arg(a, A0, word(g, p.far, nwords)); call(a, 96); break;
			case 9: arg(a, A0, 1); arg(a, A1, g.chance(85) ? 1 + g.draw(3) : g.draw(5)); arg(a, A2, g.chance(30) ? 0 : 1 + g.draw(30)); call(a, 131); if (g.chance(60)) call(a, NR_LOG); break;
			case 10: arg(a, A0, WORDS); arg(a, A1, 2 + g.draw(5)); call(a, 98); call(a, NR_LOG); break;
			case 12:
				switch (g.draw(3)) {
				case 0: arg(a, A0, 1 + g.draw(2)); arg(a, A1, g.chance(80) ? PRIVATE + 0x100 + 32 * g.draw(3) : 0); arg(a, A2, g.chance(40) ? PRIVATE + 0x400 : 0); call(a, 134); break;
				case 1: arg(a, A0, g.chance(80) ? PRIVATE + 0x200 + 32 * g.draw(5) : 0); arg(a, A1, g.chance(40) ? PRIVATE + 0x440 : 0); call(a, 132); break;
				default: arg(a, A0, 0); arg(a, A1, 1 + g.draw(2)); a.li(1, a.here() + 16 + 8); call(a, 130); call(a, NR_LOG); break;
				}
				break;
			default: call(a, g.chance(30) ? 94 : 93); break;
			}
		}
		if (loop) { a.addi_d(26, 26, -1); a.bnez(26, (int64_t)top - (int64_t)a.here()); }
		// let the others finish
		if (!child) for (unsigned i = g.draw(6); i > 0; i--) call(a, 124);
		if (child) call(a, 93);
		a.stop();
	}
	a.raw(0);
	for (auto& f : fixes) { const int64_t off = ((int64_t)start[f.script] - (int64_t)(CODE_VA + f.at * 4)) >> 2; p.code[f.at] = 0x50000000u | (uint32_t)(off & 0xffff) << 10 | (uint32_t)((off >> 16) & 0x3ff); }
	return p;
}

// ---- the real machine ----
struct Watch { const Model* model; size_t at = 0; std::string bad, kind; };
void on_log(Machine& m)
{
	auto& w = *m.get_userdata<Watch>();
	if (!w.bad.empty()) return;
	if (w.at >= w.model->log.size()) { w.kind = "extra"; w.bad = "one host call too many"; return; }
	const Snap& s = w.model->log[w.at];
	auto list = [](const std::vector<int>& v) { std::string r; for (int i : v) r += fmt(" %d", i); return r; };
	auto bad = [&](const char* k, const std::string& d) { w.kind = k; w.bad = fmt("at host call %zu, in thread %d: ", w.at, s.tid) + d; m.stop(); };
	w.at++;
	auto& mt = m.threads();
	if (mt.get_tid() != s.tid || m.gettid() != s.tid) return bad("tid", fmt("thread %d is running", mt.get_tid()));
	std::string kind, d = compare(m, s.c, kind, false, false);
	if (!d.empty()) return bad(kind.c_str(), d);
	if (m.cpu.pc() + 4 != s.c.pc) return bad("pc", fmt("pc 0x%lx, expected 0x%lx", (unsigned long)m.cpu.pc(), (unsigned long)s.c.pc - 4));
	if (memcmp(arena(m) + DATA_VA, s.data.data(), s.data.size())) {
		size_t i = 0; while (arena(m)[DATA_VA + i] == s.data[i]) i++;
		return bad("mem", fmt("memory at 0x%zx is %02x, expected %02x", (size_t)DATA_VA + i, arena(m)[DATA_VA + i], s.data[i]));
	}
	std::vector<int> su, bl;
	for (auto* t : mt.suspended_threads()) su.push_back(t->tid);
	for (auto* t : mt.blocked_threads()) bl.push_back(t->tid);
	if (su != s.suspended) return bad("runnable", "waiting to run:" + list(su) + ", expected" + list(s.suspended));
	if (bl != s.blocked) return bad("blocked", "blocked:" + list(bl) + ", expected" + list(s.blocked));
	for (int id = 0; id <= 60; id++) {
		const bool alive = std::find(s.alive.begin(), s.alive.end(), id) != s.alive.end();
		if ((mt.get_thread(id) != nullptr) != alive) return bad("alive", fmt("thread %d %s", id, alive ? "is gone" : "still exists"));
	}
}
} // namespace

PROP(thread_model)
{
	const Prog p = make(g);
	Model M;
	M.code = &p.code;
	M.mem.data.resize(SIZE_SMALL); M.mem.rd_lo = CODE_VA; M.mem.wr_lo = DATA_VA;
	memcpy(&M.mem.data[CODE_VA], p.code.data(), p.code.size() * 4);
	memcpy(&M.mem.data[DATA_VA], p.data.data(), p.data.size());
	uint64_t s = g.draw(0xffff) + 1;
	for (int i = 1; i < 32; i++) M.c.x[i] = isagen::bgmix(s);
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) { uint64_t r = isagen::bgmix(s); memcpy(M.c.v[i].b + 8 * k, &r, 8); }
	M.c.x[3] = DATA_VA + 0x3ff0; M.c.pc = CODE_VA;
	const ref::CPU init = M.c;
	const Mode mode = g.pick({FAST, STEP, INACC});
	const unsigned slice = g.chance(50) ? 0 : 1 + g.draw(40);
	M.run(20000);
	if (M.why == W_OPEN || M.why == W_THREW) { g.label("model did not finish"); return; }

	auto m = bare(p.size, CODE_VA, DATA_VA);
	Watch w{&M};
	m->set_userdata(&w);
	Machine::setup_linux_syscalls();
	ref::CPU start = init; start.mem = nullptr;
	load_state(*m, start);
	m->setup_posix_threads();
	Machine::install_syscall_handler(NR_LOG, on_log);
	memcpy(arena(*m) + CODE_VA, p.code.data(), p.code.size() * 4);
	memcpy(arena(*m) + DATA_VA, p.data.data(), p.data.size());
	m->cpu.init_execute_area(p.code.data(), CODE_VA, p.code.size() * 4);
	m->cpu.jump(CODE_VA);
	std::string ex;
	try {
		m->set_max_instructions(~0ull);
		if (mode == STEP) { for (unsigned i = 0; i < M.steps + (M.why == W_END) && !m->stopped(); i++) m->cpu.step_one(); }
		else if (mode == INACC) m->cpu.simulate_inaccurate(CODE_VA);
		else if (slice == 0) m->simulate(100000, 0);
		else for (unsigned i = 0; i < 30000; i++) if (m->simulate(slice, 0)) break;
	} catch (const MachineException& e) { ex = fmt("exception %d: %s (data 0x%lx) at pc 0x%lx", (int)e.type(), e.what(), (unsigned long)e.data(), (unsigned long)m->cpu.pc()); }
	auto where = [&] {
		std::string t = M.trace; if (t.size() > 6000) t = t.substr(0, 6000) + " ...";
		return fmt("\n  %s dispatch, slices of %u; the model's history:", mode_name(mode), slice) + t;
	};
	if (!w.bad.empty()) fail(w.kind, w.bad + where());
	if (!ex.empty()) fail("exception", ex + where());
	if (w.at != M.log.size()) fail("missing", fmt("%zu of %zu host calls were made", w.at, M.log.size()) + where());
	std::string kind, d = compare(*m, M.c, kind, true, M.why == W_END && mode != STEP && false);
	if (!d.empty()) fail("end:" + kind, "at the end: " + d + where());
	g.label(mode_name(mode));
	if (M.created) g.label("threads created");
	if (M.waits) g.label("futex waits");
	if (M.wakes) g.label("threads woken");
	if (M.kills) g.label("threads killed");
	if (M.signals) g.label("signal handlers run");
	if (M.spurious) g.label("everybody blocked");
	if (p.far) g.label("4 GiB apart");
	if (M.switches) g.nontrivial(mix(hash_bytes(p.code.data(), p.code.size() * 4), hash_bytes(p.data.data(), p.data.size())));
	if (g.want_sample()) g.sample(where());
}
