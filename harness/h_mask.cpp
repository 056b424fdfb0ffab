// Builds with masked memory (LA_MASKED_MEMORY_BITS=N): every access of a program
// happens at its address modulo 2^N, and nowhere else.
#include "progreal.hpp"
#if LA_MASKED_MEMORY_BITS
#include <sys/mman.h>

namespace {
constexpr uint64_t SPAN = 1ull << LA_MASKED_MEMORY_BITS;
constexpr size_t OVER = 64, GUARD = 4096;

// donated memory between recognisable bytes (not for arenas of gigabytes)
struct Donated {
	std::vector<uint8_t> buf;
	size_t end = GUARD + SPAN + OVER;   // (the rest is beyond the reach of the guest)
	explicit Donated(bool on, size_t extra = 0)
	{
		if (!on || LA_MASKED_MEMORY_BITS > 20) return;
		buf.resize(GUARD + SPAN + OVER + extra + GUARD);
		for (size_t i = 0; i < GUARD; i++) buf[i] = pattern(i);
		for (size_t i = end; i < buf.size(); i++) buf[i] = pattern(i);
		vm::donate = &buf[GUARD]; vm::donate_size = SPAN + OVER + extra;
	}
	// less than the guest may reach
	void shorten(size_t by)
	{
		vm::donate_size = SPAN + OVER - by;
		end = std::min(end, GUARD + vm::donate_size);
		for (size_t i = end; i < buf.size(); i++) buf[i] = pattern(i);
	}
	~Donated() { vm::donate = nullptr; }
	static uint8_t pattern(size_t i) { return (uint8_t)(i * 167 + 13); }
	void check(const char* what) const
	{
		if (buf.empty()) return;
		for (size_t i = 0; i < GUARD; i++) if (buf[i] != pattern(i)) fail(fmt("mask:%s:before", what), fmt("%s changed the byte %zu before the memory of the guest", what, GUARD - i));
		for (size_t i = end; i < buf.size(); i++) if (buf[i] != pattern(i)) fail(fmt("mask:%s:after", what), fmt("%s changed the byte %zu after the %d-bit memory of the guest", what, i - end, LA_MASKED_MEMORY_BITS));
	}
};
} // namespace

// Whole programs, whose addresses wrap around
PROP(mask_prog)
{
	Run r;
	Opts o;
	o.max_len = g.chance(15) ? 1200 : 160;
	o.branch_pct = g.pick({16u, 8u, 30u, 2u});
	o.sys_pct = g.pick({3u, 8u, 0u});
	o.weird_pct = g.pick({2u, 10u, 40u});
	Program p = make(g, o);
	// equal addresses, modulo the size
	unsigned high = 0;
	for (unsigned b : {R_BASE0, R_BASE1, R_IDX}) if (!g.chance(25)) { p.init.x[b] += g.chance(50) ? SPAN * g.draw(5) : g.u64() << LA_MASKED_MEMORY_BITS; high++; }
	if (LA_MASKED_MEMORY_BITS <= 20 && g.chance(30)) { p.init.x[R_BASE0] = g.u64() & ~7ull; high++; }
	if (LA_MASKED_MEMORY_BITS > 20 && g.chance(50)) { p.init.x[g.chance(50) ? R_BASE0 : R_BASE1] = g.pick({0x80000000ull, 0x80000000ull, 0x100000000ull - 0x800}) - 0x400 + g.draw(0x800) + (g.chance(50) ? 0 : g.u64() << 32); high++; }
	else if (g.chance(20)) p.init.x[R_BASE1] = (g.chance(50) ? 0 : SPAN) + g.draw(0x2000);
	if (!prepare(p, r, 4000)) r.steps = 0;
	if (r.steps == 0) { g.label("nothing executed"); return; }
	classify(g, p, r);
	if (high) g.label("addresses beyond the mask");
	auto opts = vm::options();
#ifdef LA_BINARY_TRANSLATION
	opts->translate_enabled = true;
	opts->translate_use_register_caching = !g.chance(30);
	opts->translate_automatic_nbit_address_space = g.chance(20);
	opts->translate_unchecked_memory_accesses = g.chance(20);
	const bool steps = g.chance(10);
#else
	const bool steps = g.chance(50);
#endif
	Donated mem(g.chance(50), 16 * g.draw(64));
	Real real(p, opts);
	Machine& m = *real.m;
	if (m.memory.arena_size() != SPAN) fail("mask:size", fmt("the memory has 0x%lx bytes, the build says 2^%d", (unsigned long)m.memory.arena_size(), LA_MASKED_MEMORY_BITS));
	if (steps) {
		Got got = attempt([&] { for (uint64_t i = 0; i < r.steps; i++) m.cpu.step_one(); return true; }, &m);
		// (single stepping reads instructions wherever there is memory)
		if (is_exception(r.ev) && r.ev != E_EXEC) { compare_exception(m, p, r, got, "mask-step", true); }
		else {
			if (got.threw) fail(fmt("mask-step:unexpected:%d", got.type), fmt("step: exception type %d (%s) at pc 0x%lx", got.type, got.what.c_str(), (unsigned long)got.pc) + listing(m, p, got.pc));
			compare_running(m, p, r, "mask-step");
		}
		g.label("single steps");
	} else if (g.chance(30) && r.ev != E_NONE) {
		Got got = attempt([&] { m.cpu.simulate_inaccurate(p.lay.code); return true; }, &m);
		if (is_exception(r.ev)) compare_exception(m, p, r, got, "mask-inacc", false);
		else {
			if (got.threw) fail(fmt("mask-inacc:unexpected:%d", got.type), fmt("inaccurate: exception type %d (%s)", got.type, got.what.c_str()) + listing(m, p, got.pc));
			compare_running(m, p, r, "mask-inacc");
		}
	} else {
		Run f; reset_run(p, f);
		const uint64_t total = r.steps + (is_exception(r.ev) ? 1 : 0);
		for (unsigned k = 0; k < 40 && f.steps < total; k++) {
			const uint64_t lim = g.chance(50) ? total - f.steps : 1 + g.draw(total);
			if (!slice(real, p, f, lim, m.instruction_counter(), r.steps, "mask")) break;
			if (f.ev == E_SYSSTOP) f.ev = E_NONE;
		}
	}
	mem.check("a program");
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed with %u bases beyond the mask, ended: %s", p.words.size(), (unsigned long)r.steps, high, event_name(r.ev)) + (p.words.size() < 30 ? listing(m, p) : ""));
}

// Single accesses of every kind, at any address
PROP(mask_isa)
{
	static std::unique_ptr<Machine> m_;
	static Donated mem(true);
	if (!m_) m_ = bare();
	Machine& m = *m_;
	const auto& pool = isagen::pool(CL_MEM);
	const Insn& in = *pool[g.index(pool.size())];
	Mem mm; mm.data.resize(SIZE); mm.rd_lo = CODE; mm.wr_lo = DATA;
	ref::CPU c; c.mem = &mm;
	isagen::background(g, c, mm);
	for (uint64_t a = 0; a < DATA; a += 8) { uint64_t v = a * 0x9e3779b97f4a7c15ull; memcpy(&mm.data[a], &v, 8); }
	const uint32_t w = isagen::operands(g, in, c, true);
	mm.mask = vm::MASK;
	// an address that is not covered, or somewhere else with the same low bits
	for (unsigned r : {RJ(w), RK(w)}) if (r && r != RD(w) && g.chance(50)) c.x[r] = g.chance(50) ? c.x[r] + (g.u64() << LA_MASKED_MEMORY_BITS) : LA_MASKED_MEMORY_BITS > 20 && g.chance(70) ? g.pick({0x80000000ull, 0x100000000ull - 0x800}) - 0x800 + g.draw(0x1000) + (g.chance(50) ? 0 : g.u64() << 32) : g.chance(50) ? g.draw(SPAN - 1) : g.u64();
	c.pc = CODE;
	memcpy(&mm.data[CODE], &w, 4); memcpy(&mm.data[CODE + 4], &STOP_WORD, 4);
	mm.ro_lo = CODE; mm.ro_hi = CODE + 8;
	if (LA_MASKED_MEMORY_BITS > 20) {
		vm::add_windows(mm, SIZE);
		for (size_t a = SIZE; a < mm.data.size(); a += 8) { uint64_t v = a * 0x9e3779b97f4a7c15ull; memcpy(&mm.data[a], &v, 8); }
	}
	load_state(m, c);
	ref::CPU pre = c;
	c.clear_marks();
	const Outcome out = c.step(w);
	if (out != OK) { g.label("not defined"); return; }
	g.label(in.name);
	g.nontrivial(mix(hash_bytes(&w, 4), hash_bytes(pre.x, sizeof pre.x)));
	const uint32_t code[2] = {w, STOP_WORD};
	m.memory.evict_execute_segments();
	m.cpu.init_execute_area(code, CODE, 8);
	m.cpu.jump(CODE);
	m.set_instruction_counter(0);
	const unsigned mode = g.draw(2);
	const Got got = attempt([&] { if (mode == STEP) m.cpu.step_one(); else if (mode == FAST) m.simulate(UINT64_MAX, 0); else m.cpu.simulate_inaccurate(CODE); return true; }, &m);
	const std::string where = fmt("%s: %s (word %08x): ", mode_name((Mode)mode), in.name, w);
	auto describe = [&] { std::string s; for (unsigned r : {RD(w), RJ(w), RK(w)}) s += fmt("\n    before: x%u=0x%lx", r, (unsigned long)pre.x[r]); return s; };
	if (got.threw) fail(fmt("mask:%s:exception", in.name), where + fmt("exception type %d (%s)", got.type, got.what.c_str()) + describe());
	if (mode != STEP) c.pc += 4;
	std::string kind, d = compare(m, c, kind);
	if (!d.empty()) fail(fmt("mask:%s:%s", in.name, kind.c_str()), where + d + describe());
	mem.check(in.name);
	if (g.want_sample()) g.sample(where + dis(m, w) + describe());
}

// Loading: the memory has 2^N bytes, whatever is asked for
PROP(mask_load)
{
	using namespace elfimg;
	if (LA_MASKED_MEMORY_BITS > 20) { g.label("not for this size"); return; }
	Image im;
	im.code = {STOP_WORD};
	while (g.chance(80) && im.code.size() < 50) im.code.insert(im.code.begin(), NOP_WORD);
	im.code_va = 0x1000 + 16 * g.draw(0x100);
	auto place = [&]() -> uint64_t { return 16 * (g.chance(60) ? 0x300 + g.draw((SPAN >> 4) - 0x300) : (SPAN >> 4) - 8 + g.draw(g.chance(50) ? 16 : 0x2000)); };
	im.data_va = place();
	im.data_size = g.chance(50) ? g.draw(64) : g.draw(SPAN / 2);
	im.data.resize(g.chance(30) ? 0 : g.draw(im.data_size));
	for (auto& ch : im.data) ch = (char)g.draw(255);
	if (g.chance(10)) im.code_va = place();
	const std::string file = build(im);
	auto o = vm::options();
	o->memory_max = g.chance(40) ? SPAN : g.chance(50) ? SPAN + 16 * g.draw(0x4000) : SPAN - 16 * g.draw(0x400);
	o->stack_size = g.chance(70) ? 0x1000 : 0x1000 * g.draw(20);
	o->brk_size = g.chance(70) ? 0x1000 : 0x1000 * g.draw(20);
	Donated mem(g.chance(70), g.chance(50) ? 0 : 16 * g.draw(0x4000));
	if (!mem.buf.empty()) {
		if (g.chance(15)) mem.shorten(1 + g.draw(g.chance(60) ? 63 : 200));
		o->custom_arena_pointer = vm::donate; o->custom_arena_size = vm::donate_size;
	}
	const std::string how = fmt("code at 0x%lx, data of 0x%lx (file 0x%zx) at 0x%lx, memory_max 0x%zx, stack 0x%zx, brk 0x%zx, donated 0x%zx", (unsigned long)im.code_va, (unsigned long)im.data_size, im.data.size(), (unsigned long)im.data_va, o->memory_max, (size_t)o->stack_size, (size_t)o->brk_size, o->custom_arena_size);
	g.nontrivial(hash_bytes(how.data(), how.size()));
	std::unique_ptr<Machine> m;
	try { m = std::make_unique<Machine>(std::string_view(file), *o); m->set_options(o); }
	catch (const MachineException& e) {
		g.label("refused");
		mem.check("a refused program");
		// everything fits: at most one page is lost between the segments and the rest
		const uint64_t top = std::max(im.code_va + im.code.size() * 4, im.data_va + std::max<uint64_t>(im.data_size, im.data.size()));
		const bool donated_ok = !o->custom_arena_pointer || o->custom_arena_size < o->memory_max || o->custom_arena_size >= SPAN + OVER;
		if (donated_ok && ((top + 4095) & ~4095ull) + o->stack_size + o->brk_size + 0x2000 <= std::min<uint64_t>(SPAN, o->memory_max) && (im.data_va >= im.code_va + im.code.size() * 4 || im.code_va >= im.data_va + im.data_size))
			fail("mask-load:refused", how + fmt(": refused, exception %d (%s)", (int)e.type(), e.what()));
		return;
	}
	g.label("loaded");
	auto& mm = m->memory;
	if (mm.arena_size() != SPAN) fail("mask-load:size", how + fmt(": the memory has 0x%lx bytes, 2^%d are within reach", (unsigned long)mm.arena_size(), LA_MASKED_MEMORY_BITS));
	if (mm.stack_address() > SPAN) fail("mask-load:stack", how + fmt(": the stack ends at 0x%lx", (unsigned long)mm.stack_address()));
	// the segments, through the accesses of a program
	const bool apart = im.data_va >= im.code_va + im.code.size() * 4 || im.code_va >= im.data_va + std::max<uint64_t>(im.data_size, 1);
	if (apart) {
		for (size_t i = 0; i < im.code.size(); i++) if (mm.read<uint32_t>(im.code_va + i * 4) != im.code[i]) fail("mask-load:code", how + fmt(": the code at 0x%lx was not loaded", (unsigned long)(im.code_va + i * 4)));
		for (size_t i = 0; i < im.data_size; i++) { const uint8_t want = i < im.data.size() ? (uint8_t)im.data[i] : 0; if (mm.read<uint8_t>(im.data_va + i) != want) fail("mask-load:data", how + fmt(": the data at 0x%lx was not loaded", (unsigned long)(im.data_va + i))); }
	}
	// accesses of the host: ranges stay inside of the memory
	std::vector<uint8_t> model(arena(*m), arena(*m) + SPAN);
	const unsigned n = g.draw(12);
	for (unsigned i = 0; i < n; i++) {
		const uint64_t at = g.chance(60) ? SPAN + 8 - g.draw(80) : g.chance(50) ? im.data_va + g.draw(0x100) : g.u64();
		const uint64_t len = g.draw(g.chance(20) ? 5000 : 72);
		const bool in = at < SPAN && len <= SPAN - at;
		const unsigned k = g.draw(4);
		bool threw = false;
		std::string got;
		const char* K[] = {"copy_to_guest", "copy_from_guest", "memset", "memview", "write"};
		try {
			switch (k) {
			case 0: { std::string s(len, (char)i); mm.copy_to_guest(at, s.data(), len); if (in) memset(&model[at], (char)i, len); break; }
			case 1: got.resize(len); mm.copy_from_guest(&got[0], at, len); break;
			case 2: mm.memset(at, 0x40 + i, len); if (in) memset(&model[at], 0x40 + i, len); break;
			case 3: got = std::string(mm.memview(at, len)); break;
			default: mm.write<uint64_t>(at, i * 0x0101010101010101ull); { const uint64_t a = at & (SPAN - 1); const uint64_t v = i * 0x0101010101010101ull; memcpy(&model[a], &v, std::min<uint64_t>(8, SPAN - a)); } break;
			}
		} catch (const MachineException& e) { threw = true; }
		const std::string what = how + fmt(": %s of %lu bytes at 0x%lx", K[k], (unsigned long)(k == 4 ? 8 : len), (unsigned long)at);
		if (k == 4 && threw) fail("mask-load:write", what + " throws");
		if (k < 4 && len && !in && !threw) fail(fmt("mask-load:%s:through", K[k]), what + " is let through");
		if (!threw && !got.empty() && memcmp(got.data(), &model[at], got.size())) fail(fmt("mask-load:%s:read", K[k]), what + " gives other bytes");
		if (memcmp(arena(*m), model.data(), SPAN)) fail(fmt("mask-load:%s:mem", K[k]), what + (threw ? " throws, and changes memory" : " changes other bytes"));
	}
	// (the bytes after the end may hold the rest of one access)
	mem.check("loading and accessing");
	// programs stop where they say
	try { m->simulate(10000, 0); } catch (const MachineException& e) { if (apart) fail("mask-load:run", how + fmt(": the program throws %d (%s)", (int)e.type(), e.what())); }
	mem.check("running");
	if (g.want_sample()) g.sample(how);
}
#endif
