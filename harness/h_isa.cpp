// Single-instruction properties: every implemented instruction, in every dispatch
// mode, computes what the architecture reference computes.
#include "vm.hpp"
#include "isagen.hpp"
using namespace pbt;
using namespace ref;
using namespace vm;

static void run_one(Gen& g, Cls cls, bool want_fault_mix)
{
	const auto& pool = isagen::pool(cls);
	const Insn* in = pool[g.index(pool.size())];
	static std::unique_ptr<Machine> M;
	static Mem mem0;
	ref::CPU c;
	Mem mem; mem.data.resize(SIZE); mem.rd_lo = CODE; mem.wr_lo = DATA;
	c.mem = &mem;
	isagen::background(g, c, mem);
	const uint64_t pc = CODE + 0x100 + 4 * g.draw(64);
	c.pc = pc;
	uint32_t w = isagen::operands(g, *in, c, want_fault_mix);
	// code: all STOP except our word
	for (uint64_t a = CODE; a < CODE + 0x1000; a += 4) memcpy(&mem.data[a], &STOP_WORD, 4);
	memcpy(&mem.data[pc], &w, 4);

	ref::CPU pre = c;
	Mem premem = mem;
	pre.mem = &premem;
	c.clear_marks();
	const ref::Outcome out = c.step(w);
	if (out == UNSPEC || out == UNKNOWN) { g.label("unspecified"); return; }
	if (out == STOP) { g.label("stop"); return; }
	// an access that starts inside the arena and runs past its top is not specified
	if (out == FAULT && c.fault_addr >= SIZE - 32 && c.fault_addr < SIZE) { g.label("straddles top of memory"); return; }
	if (w == STOP_WORD) { g.label("stop"); return; }
	const bool is_branch = isagen::is_branch(*in);
	if (is_branch && (c.pc < CODE || c.pc >= CODE + 0x1000 || (c.pc & 3) || c.pc == pc)) { g.label("branch out of segment"); return; }
	// loads to $zero may legally be dropped by the fast path
	const bool fault_unspec = out == FAULT && isagen::is_load(*in) && RD(w) == 0;
	g.label(in->name);
	g.nontrivial(mix(hash_bytes(&w, 4), hash_bytes(pre.x, sizeof pre.x, hash_bytes(pre.v, sizeof pre.v))));
	if (out == FAULT) g.label("~fault");

	static const Mode modes[] = {STEP, FAST, INACC};
	for (Mode mode : modes) {
		if (!M) M = bare();
		Machine& m = *M;
		m.memory.evict_execute_segments();
		load_state(m, pre);
		m.set_instruction_counter(0);
		bool threw = false; int etype = -1; std::string what;
		try {
			if (mode == STEP) m.cpu.step_one();
			else {
				m.cpu.init_execute_area(&premem.data[CODE], CODE, 0x1000);
				m.cpu.jump(pc);
				if (mode == FAST) m.simulate(100000, 0);
				else m.cpu.simulate_inaccurate(pc);
			}
		} catch (const MachineException& e) { threw = true; etype = e.type(); what = e.what(); }
		const std::string where = fmt("%s %s (word %08x) ", mode_name(mode), in->name, w);
		auto sig = [&](const char* k) { return fmt("%s:%s:%s", mode_name(mode), in->name, k); };
		auto describe = [&]() {
			std::string s = fmt("\n  before: rd=%u rj=%u rk=%u ra=%u pc=0x%lx", RD(w), RJ(w), RK(w), RA(w), (unsigned long)pc);
			for (unsigned r : {RD(w), RJ(w), RK(w), RA(w)}) s += fmt("\n    x%u=0x%lx v%u=%s", r, (unsigned long)pre.x[r], r, hex(pre.v[r].b, 32).c_str());
			s += fmt("\n    fcc=0x%x", pre.fcc);
			return s;
		};
		if (out == FAULT) {
			if (fault_unspec) continue;
			if (!threw) fail(sig("nofault"), where + fmt("accessed 0x%lx outside the permitted area without a protection fault", (unsigned long)c.fault_addr) + describe());
			if (etype != loongarch::PROTECTION_FAULT) fail(sig("wrongfault"), where + fmt("raised exception type %d (%s), expected a protection fault", etype, what.c_str()) + describe());
			if (memcmp(arena(m), premem.data.data(), SIZE) != 0) fail(sig("faultwrote"), where + "modified memory although it faulted" + describe());
			continue;
		}
		if (threw) fail(sig("exception"), where + fmt("raised exception type %d (%s)", etype, what.c_str()) + describe());
		ref::CPU exp = c;
		if (mode != STEP) exp.pc += 4;   // the STOP marker was executed too
		std::string kind;
		std::string d = compare(m, exp, kind);
		if (!d.empty()) fail(sig(kind.c_str()), where + d + describe());
	}
	if (g.want_sample()) g.sample(fmt("%08x %s | rj=0x%lx rk=0x%lx -> rd x=0x%lx v=%s (step, fast and inaccurate dispatch agree with reference)", w, vm::dis(*M, w).c_str(),
		(unsigned long)pre.x[RJ(w)], (unsigned long)pre.x[RK(w)], (unsigned long)c.x[RD(w)], hex(c.v[RD(w)].b, 16).c_str()));
}

PROP(isa_int) { run_one(g, CL_INT, false); }
PROP(isa_mem) { run_one(g, CL_MEM, true); }
PROP(isa_branch) { run_one(g, CL_BRANCH, false); }
PROP(isa_fp) { run_one(g, CL_FP, false); }
PROP(isa_lsx) { run_one(g, CL_LSX, false); }
PROP(isa_lasx) { run_one(g, CL_LASX, false); }

// Short sequences of load-linked, store-conditional, atomic and plain accesses to a few shared words
PROP(isa_llsc)
{
	static std::unique_ptr<Machine> M;
	static const Insn *LLW, *LLD, *SCW, *SCD; static std::vector<const Insn*> am;
	if (!LLW) for (auto* i : isagen::pool(CL_MEM)) {
		const std::string n = i->name;
		if (n == "ll.w") LLW = i; else if (n == "ll.d") LLD = i; else if (n == "sc.w") SCW = i; else if (n == "sc.d") SCD = i; else if (i->fmt == AM) am.push_back(i);
	}
	ref::CPU c;
	Mem mem; mem.data.resize(SIZE); mem.rd_lo = CODE; mem.wr_lo = DATA;
	c.mem = &mem;
	isagen::background(g, c, mem);
	const uint64_t pc = CODE + 0x100;
	c.pc = pc;
	c.ll = false;
	const uint64_t base = DATA + 0x100 + 8 * g.draw(64);
	c.x[4] = base;
	const size_t n = 2 + g.draw(10);
	std::vector<uint32_t> words;
	uint64_t linked = ~0ull; bool linked_d = false;
	for (size_t i = 0; i < n; i++) {
		uint32_t disp = g.chance(75) ? 0 : (uint32_t)g.draw(3);   // in units of 8 bytes
		const unsigned rd = g.chance(8) ? 0 : 5 + g.draw(6);
		switch (g.weighted({30, 38, 12, 10, 10})) {
		case 0: { const bool d = g.chance(50); words.push_back((d ? LLD : LLW)->match | (disp * 2) << 10 | 4 << 5 | rd); linked = disp; linked_d = d; break; }
		case 1: {
			// (a store-conditional to an address that is not the linked one is unpredictable)
			bool d = g.chance(50);
			if (linked != ~0ull) { disp = linked; d = linked_d; }
			words.push_back((d ? SCD : SCW)->match | (disp * 2) << 10 | 4 << 5 | rd); break;
		}
		case 2: words.push_back(am[g.index(am.size())]->match | (5 + g.draw(5)) << 10 | 4 << 5 | (g.chance(8) ? 0 : 11)); break;
		case 3: words.push_back(0x29800000u | (disp * 8) << 10 | 4 << 5 | (5 + (uint32_t)g.draw(5))); break; // st.w
		default: words.push_back(0x02c00000u | (uint32_t)(1 + g.draw(99)) << 10 | (5 + (uint32_t)g.draw(5)) << 5 | (5 + (uint32_t)g.draw(5))); break; // addi.d
		}
	}
	for (uint64_t a = CODE; a < CODE + 0x1000; a += 4) memcpy(&mem.data[a], &STOP_WORD, 4);
	memcpy(&mem.data[pc], words.data(), words.size() * 4);
	ref::CPU pre = c;
	Mem premem = mem;
	pre.mem = &premem;
	c.clear_marks();
	unsigned ok = 0, failed = 0;
	for (auto w : words) {
		const Outcome out = c.step(w);
		if (out != OK) { g.label("unspecified"); return; }
		if ((w >> 24) == 0x21 || (w >> 24) == 0x23) (RD(w) && c.x[RD(w)] ? ok : failed)++;
	}
	for (int i = 0; i < 32; i++) if (!c.xdef[i]) { g.label("unspecified"); return; }
	if (ok) g.label("a store-conditional succeeds");
	if (failed) g.label("a store-conditional fails");
	if (ok + failed) g.nontrivial(mix(hash_bytes(words.data(), words.size() * 4), hash_bytes(pre.x, sizeof pre.x)));
	static const Mode modes[] = {STEP, FAST, INACC};
	for (Mode mode : modes) {
		if (!M) M = bare();
		Machine& m = *M;
		m.memory.evict_execute_segments();
		load_state(m, pre);
		m.set_instruction_counter(0);
		bool threw = false; int etype = -1; std::string what;
		try {
			if (mode == STEP) for (size_t i = 0; i < words.size(); i++) m.cpu.step_one();
			else {
				m.cpu.init_execute_area(&premem.data[CODE], CODE, 0x1000);
				m.cpu.jump(pc);
				if (mode == FAST) m.simulate(100000, 0);
				else m.cpu.simulate_inaccurate(pc);
			}
		} catch (const MachineException& e) { threw = true; etype = e.type(); what = e.what(); }
		auto list = [&] { std::string s; for (auto w : words) s += "\n    " + vm::dis(m, w); return s + fmt("\n    (r4 = 0x%lx)", (unsigned long)base); };
		if (threw) fail(fmt("%s:llsc:exception", mode_name(mode)), fmt("%s: exception type %d (%s)", mode_name(mode), etype, what.c_str()) + list());
		ref::CPU exp = c;
		if (mode != STEP) exp.pc += 4;
		std::string kind;
		std::string d = compare(m, exp, kind);
		if (!d.empty()) fail(fmt("%s:llsc:%s", mode_name(mode), kind.c_str()), fmt("%s: ", mode_name(mode)) + d + list());
	}
	if (g.want_sample()) { std::string s; for (auto w : words) s += vm::dis(*M, w) + "; "; g.sample(s + fmt("%u store-conditionals succeed, %u fail, in every dispatch mode", ok, failed)); }
}
