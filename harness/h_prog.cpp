// Whole-program properties: random programs in every dispatch mode, run in one
// go, in slices and under limits, against the reference CPU.
#include "progreal.hpp"

namespace {
// Single-step the machine as far as the reference went: with step_one(), with the
// precise simulation, or in the debugger
Got run_steps(Machine& m, const Run& r, const Program& p, unsigned how = 0)
{
	if (how) {
		// without any decoded code
		memset(arena(m) + p.lay.code, 0, p.words.size() * 4);
		m.memory.evict_execute_segments();
		m.cpu.jump(p.lay.data);
		m.cpu.init_slowpath_execute_area(p.words.data(), p.lay.code, p.words.size() * 4);
	}
	return attempt([&] {
		if (how == 1 && r.steps) {
			m.set_max_instructions(r.steps);
			m.cpu.simulate_precise();
		} else if (how == 2 && r.steps) {
			loongarch::DebugMachine dm(m);
			dm.verbose_instructions = dm.verbose_registers = false;
			dm.simulate(r.steps);
		} else
		for (uint64_t i = 0; i < r.steps; i++) {
			if (getenv("PBT_TRACE")) fprintf(stderr, "step: pc %lx %s\n", (unsigned long)m.cpu.pc(), m.cpu.current_instruction_to_string().c_str());
			m.cpu.step_one();
		}
		// (single stepping reads instructions wherever memory is readable)
		if (r.ev == E_EXEC && r.fault_pc < m.memory.arena_size()) throw MachineException(loongarch::EXECUTION_SPACE_PROTECTION_FAULT, "not stepped");
		if (r.ev == E_EXEC) m.cpu.step_one();
		return true;
	}, &m);
}

Opts small_opts(Gen& g) { Opts o; o.max_len = g.chance(15) ? 1200 : 160; o.branch_pct = g.pick({16u, 8u, 30u, 2u}); o.sys_pct = g.pick({3u, 8u, 0u}); return o; }
} // namespace

// C08: step and fast dispatch against the reference
PROP(prog_ref)
{
	Run r;
	Opts o = small_opts(g);
	if (g.chance(3)) { o.lay = LARGE; o.max_len = 60000; o.branch_pct = g.pick({3u, 1u, 0u}); o.sys_pct = o.branch_pct == 3; o.weird_pct = 0; }
	Program p = gen(g, r, o, 4000);
	if (r.steps == 0) { g.label("nothing executed"); return; }
	classify(g, p, r);
	Real real(p);
	const bool steps_first = g.chance(50);
	for (int k = 0; k < 2; k++) {
		if (k) real.start();
		if ((k == 0) == steps_first) {
			const unsigned how = (unsigned)g.weighted({60, 20, 20});
			if (how) g.label(how == 1 ? "precise simulation" : "debugger");
			Got got = run_steps(*real.m, r, p, how);
			if (!got.threw && real.m->instruction_counter() != r.steps) fail("step:count", fmt("%s: the counter is %lu after %lu instructions", how == 0 ? "step_one" : how == 1 ? "simulate_precise" : "DebugMachine", (unsigned long)real.m->instruction_counter(), (unsigned long)r.steps) + listing(*real.m, p));
			if (is_exception(r.ev)) compare_exception(*real.m, p, r, got, "step", true);
			else {
				if (got.threw) fail(fmt("step:unexpected:%d", got.type), fmt("step: exception type %d (%s) at pc 0x%lx", got.type, got.what.c_str(), (unsigned long)got.pc) + listing(*real.m, p, got.pc));
				compare_running(*real.m, p, r, "step");
			}
		} else {
			Run f; reset_run(p, f);
			slice(real, p, f, r.steps + (is_exception(r.ev) ? 1 : 0), 0, r.steps, "fast");
		}
	}
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed, %zu taken transfers, ended: %s", p.words.size(), (unsigned long)r.steps, r.transfers.size(), event_name(r.ev)) + (p.words.size() < 40 ? listing(*real.m, p) : ""));
}

// C14: the dispatch modes agree with each other
PROP(prog_modes)
{
	Run r;
	Opts o = small_opts(g);
	Program p = gen(g, r, o, 3000);
	if (r.steps == 0 || r.ev == E_NONE) { g.label("does not end"); return; }
	classify(g, p, r);
	struct Snap { Got o; std::vector<uint64_t> x; std::string v; uint8_t fcc; uint64_t pc; std::string mem; std::vector<uint64_t> log; };
	Real real(p);
	std::vector<Snap> s;
	for (int k = 0; k < 5; k++) {
		if (k) real.start();
		Machine& m = *real.m;
		Snap n;
		if (k == STEP) n.o = run_steps(m, r, p);
		else if (k > 2) n.o = run_steps(m, r, p, k - 2);
		else if (k == FAST) n.o = attempt([&] { return m.simulate(UINT64_MAX, 0); });
		else n.o = attempt([&] { m.cpu.simulate_inaccurate(p.lay.code); return true; });
		for (int i = 0; i < 32; i++) n.x.push_back(m.cpu.reg(i));
		n.v.assign((const char*)&m.cpu.registers().getvr(0), 32 * sizeof(m.cpu.registers().getvr(0)));
		n.fcc = fcc_of(m); n.pc = m.cpu.pc();
		n.mem.assign((const char*)arena(m), p.lay.size);
		n.log = g_log;
		s.push_back(n);
	}
	Machine& m = *real.m;
	const bool pc_known = !is_exception(r.ev) || r.ev == E_SYSTHROW || r.ev == E_UNKNOWNSYS;
	for (int k = 1; k < 5; k++) {
		const char* t = k == 3 ? "precise" : k == 4 ? "debugger" : mode_name((Mode)k);
		const Snap &a = s[0], &b = s[k];
		auto bad = [&](const char* what, const std::string& d) { fail(fmt("%s:%s", t, what), fmt("%s dispatch and single stepping disagree: %s", t, d.c_str()) + listing(m, p, r.fault_pc)); };
		// single stepping reports a jump into nowhere as a failed read
		const bool exec_kind = r.ev == E_EXEC && a.o.type == loongarch::PROTECTION_FAULT && b.o.type == loongarch::EXECUTION_SPACE_PROTECTION_FAULT;
		if (a.o.threw != b.o.threw || (a.o.type != b.o.type && !exec_kind)) bad("exception", fmt("exception %d (%s) and %d (%s)", b.o.type, b.o.what.c_str(), a.o.type, a.o.what.c_str()));
		for (int i = 0; i < 32; i++) if (a.x[i] != b.x[i]) bad("gpr", fmt("r%d is 0x%lx and 0x%lx", i, (unsigned long)b.x[i], (unsigned long)a.x[i]));
		if (a.fcc != b.fcc) bad("fcc", fmt("condition flags 0x%x and 0x%x", b.fcc, a.fcc));
		if (a.v != b.v) {
			// bytes the architecture leaves open are not compared
			for (int i = 0; i < 32; i++) if (memcmp(&a.v[i * 32], &b.v[i * 32], r.c.vdef[i])) bad("vec", fmt("v%d is %s and %s", i, hex(&b.v[i * 32], 32).c_str(), hex(&a.v[i * 32], 32).c_str()));
		}
		if (pc_known && a.pc != b.pc) bad("pc", fmt("pc is 0x%lx and 0x%lx", (unsigned long)b.pc, (unsigned long)a.pc));
		if (a.mem != b.mem) { size_t i = 0; while (a.mem[i] == b.mem[i]) i++; bad("mem", fmt("memory at 0x%zx is %02x and %02x", i, (uint8_t)b.mem[i], (uint8_t)a.mem[i])); }
		if (a.log != b.log) bad("log", fmt("host calls: %zu and %zu entries", b.log.size(), a.log.size()));
	}
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed, ended: %s; five modes agree", p.words.size(), (unsigned long)r.steps, event_name(r.ev)) + (p.words.size() < 30 ? listing(m, p) : ""));
}

// C15: any way of slicing a run gives the same execution
PROP(prog_slices)
{
	Run r;
	Opts o = small_opts(g);
	o.sys_pct = g.pick({6u, 12u, 0u});
	if (g.chance(2)) { o.lay = LARGE; o.max_len = 40000; o.branch_pct = 3; o.sys_pct = 1; o.weird_pct = 0; }
	Program p = make(g, o);
	reset_run(p, r);
	// follow the program through pauses requested by host calls
	r.skip_stops = g.draw(40);
	if (!prepare(p, r, 3000)) r.steps = 0;
	const uint64_t total = r.steps;
	if (total < 2) { g.label("nothing executed"); return; }
	classify(g, p, r);
	Real real(p);
	Machine& m = *real.m;
	Run f; reset_run(p, f);
	uint64_t c = g.chance(50) ? 0 : g.draw(1000);
	const unsigned style = g.draw(3);
	unsigned slices = 0, paused = 0;
	std::string plan;
	while (f.steps < total && slices < 400) {
		uint64_t lim;
		switch (style) {
		case 0: lim = 1 + g.draw(6); break;
		case 1: lim = 1 + g.draw(60); break;
		case 2: lim = 1 + g.draw(700); break;
		default: lim = g.chance(50) ? 1 : 1 + g.draw(100); break;
		}
		if (slices > 380) lim = total - f.steps;
		if (slices < 12) plan += fmt(" %lu", (unsigned long)lim);
		slices++;
		const bool step_some = g.chance(20);
		if (step_some && f.steps + 1 < total) {
			// single steps in between
			const uint64_t k = 1 + g.draw(3);
			for (uint64_t i = 0; i < k; i++) {
				if (getenv("PBT_TRACE")) fprintf(stderr, "step: pc %lx, %lu done\n", (unsigned long)m.cpu.pc(), (unsigned long)f.steps);
				prog::run(p, f, f.steps + 1, false);
				if (f.unspec) goto out;
				Got o = attempt([&] { m.cpu.step_one(); return true; });
				if (is_exception(f.ev)) { compare_exception(m, p, f, o, "slice-step", true); goto out; }
				if (o.threw) fail(fmt("slice-step:unexpected:%d", o.type), fmt("slice-step: exception type %d (%s)", o.type, o.what.c_str()) + listing(m, p, f.c.pc));
				if (f.ev == E_STOP) { compare_running(m, p, f, "slice-step"); goto out; }
				if (f.ev == E_SYSSTOP) f.ev = E_NONE;
			}
		}
		if (!slice(real, p, f, lim, c, total, "slice")) break;
		if (f.ev == E_SYSSTOP) { f.ev = E_NONE; paused++; }
		c = m.instruction_counter();
		if (g.chance(10)) c = g.draw(5000);   // the counter base does not matter
	}
out:
	if (slices > 3) g.label(">3 slices");
	if (paused) g.label("paused by host call");
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed in %u slices (limits%s ...), %u pauses by host call, ended: %s", p.words.size(), (unsigned long)f.steps, slices, plan.c_str(), paused, event_name(f.ev)));
}

// C02: the instruction limit always ends execution, promptly and with an exact count
PROP(prog_limit)
{
	Run r;
	Opts o = small_opts(g);
	o.stops = g.chance(30);
	if (g.chance(5)) { o.lay = LARGE; o.max_len = 60000; o.branch_pct = g.draw(1); o.sys_pct = 0; o.weird_pct = 0; }
	Program p = make(g, o);
	// usually: make the last instruction branch back, so that the program runs on
	if (g.chance(80)) {
		const size_t n = p.words.size();
		if (!p.split) { const int64_t back = -(int64_t)g.draw(n - 1); p.words[n - 1] = B26OP(g.chance(50) ? 0x50000000 : 0x54000000, back); }
		else { const int64_t back = -(int64_t)g.draw(n - 1 - p.split); p.words[n - 1] = B26OP(0x50000000, back); }
	}
	reset_run(p, r);
	const uint64_t most = o.lay.size == LARGE.size ? 70000 : 6000;
	if (!prepare(p, r, most)) r.steps = 0;
	if (r.steps == 0) { g.label("nothing executed"); return; }
	classify(g, p, r);
	Real real(p);
	uint64_t limit;
	switch (g.weighted({30, 30, 30, 5})) {
	case 0: limit = 1 + g.draw(40); break;
	case 1: limit = 1 + g.draw(r.steps - 1); break;
	case 2: limit = 1 + g.draw(r.steps * 2); break;
	default: limit = r.steps; break;
	}
	// the reference is only patched up to `most` steps
	if (r.ev == E_NONE && limit > r.steps * 3 / 4) limit = 1 + limit % (r.steps * 3 / 4 + 1);
	if (r.ev == E_NONE && limit + p.words.size() > most) { g.label("too close to the horizon"); return; }
	uint64_t c0;
	switch (g.weighted({60, 20, 10, 10})) {
	case 0: c0 = 0; break;
	case 1: c0 = g.draw(100000); break;
	case 2: c0 = 0xffffff00ull + g.draw(0x200); break;
	default: c0 = (1ull << 62) + g.draw(1000); break;
	}
	Run f; reset_run(p, f);
	g.label(limit < 20 ? "limit <20" : limit < 300 ? "limit <300" : limit < 3000 ? "limit <3000" : "limit >=3000");
	if (c0) g.label("counter starts above 0");
	slice(real, p, f, limit, c0, most, "limit");
	if (g.want_sample()) g.sample(fmt("%zu instructions, limit %lu from counter %lu: counter advanced by %lu, reference executed %lu, ended: %s", p.words.size(), (unsigned long)limit, (unsigned long)c0, (unsigned long)(real.m->instruction_counter() - c0), (unsigned long)f.steps, event_name(f.ev)));
}
