// Binary translation: translated programs against the reference CPU.
// (Built with a stand-in for TinyCC, see tcc/libtcc.h.)
#include "progreal.hpp"
#include <functional>
#include <thread>
#ifdef LA_BINARY_TRANSLATION
extern "C" { extern unsigned long tcc_standin_compiled, tcc_standin_failed; extern int tcc_standin_break; }

namespace {
std::shared_ptr<MachineOptions> jit_options(Gen& g)
{
	auto o = vm::options();
	o->translate_enabled = true;
	o->translate_use_register_caching = !g.chance(30);
	o->use_shared_execute_segments = g.chance(30);
	o->translate_ignore_instruction_limit = g.chance(10);
	if (g.chance(8)) o->translate_blocks_max = 1 + g.draw(1);
	if (g.chance(8)) o->translate_instr_max = 1 + g.draw(g.chance(50) ? 200 : 12000);
	return o;
}
}

// Single instructions, each an entry point of its own in one translated block
PROP(jit_isa)
{
	struct Item { uint32_t w; uint64_t pc; ref::CPU pre, post; ref::Outcome out; std::vector<uint8_t> mem, mem2; const Insn* in; bool skip; };
	static std::vector<Item> items;
	items.clear();
	const size_t want = 1 + g.draw(g.chance(50) ? 250 : 60);
	const bool faults = g.chance(60);
	auto opts = jit_options(g);
	if (!faults && g.chance(30)) opts->translate_automatic_nbit_address_space = true;
	if (!faults && g.chance(30)) opts->translate_unchecked_memory_accesses = true;
	const bool unchecked = opts->translate_automatic_nbit_address_space || opts->translate_unchecked_memory_accesses;
	for (size_t i = 0; i < want; i++) {
		const Cls cls = g.pick({CL_INT, CL_INT, CL_MEM, CL_MEM, CL_FP, CL_FP, CL_LSX, CL_LASX});
		const auto& pool = isagen::pool(cls);
		Item it{};
		it.in = pool[g.index(pool.size())];
		Mem mem; mem.data.resize(SIZE); mem.rd_lo = CODE; mem.wr_lo = DATA;
		it.pre.mem = &mem;
		isagen::background(g, it.pre, mem);
		it.pc = it.pre.pc = CODE + 4 * want + 8 * i;
		it.w = isagen::operands(g, *it.in, it.pre, faults);
		it.skip = it.w == STOP_WORD || it.w == NOP_WORD;
		it.mem = mem.data;
		items.push_back(std::move(it));
	}
	// code: a jump to each of the instructions, and each followed by the stop marker
	std::vector<uint32_t> code(3 * want, STOP_WORD);
	for (size_t i = 0; i < want; i++) {
		code[i] = B26OP(0x50000000, (int64_t)(want + 2 * i) - (int64_t)i);
		if (!items[i].skip) code[want + 2 * i] = items[i].w;
	}
	for (auto& it : items) {
		memcpy(&it.mem[CODE], code.data(), code.size() * 4);
		Mem mem; mem.data = it.mem; mem.rd_lo = CODE; mem.wr_lo = DATA;
		it.post = it.pre;
		it.post.mem = &mem;
		it.post.clear_marks();
		if (it.skip) continue;
		it.out = it.post.step(it.w);
		if (it.out == UNSPEC || it.out == UNKNOWN || it.out == STOP) it.skip = true;
		else if (it.out == FAULT && it.post.fault_addr >= SIZE - 32 && it.post.fault_addr < SIZE) it.skip = true;
		else if (it.out == FAULT && unchecked) it.skip = true;
		else if (it.out == FAULT && isagen::is_load(*it.in) && RD(it.w) == 0) it.skip = true;
		it.mem2 = std::move(mem.data);
	}
	auto m_ = bare();
	Machine& m = *m_;
	m.set_options(opts);
	memcpy(arena(m) + CODE, code.data(), code.size() * 4);
	const unsigned long f0 = tcc_standin_failed;
	m.cpu.init_execute_area(code.data(), CODE, code.size() * 4);
	if (tcc_standin_failed != f0) fail("jit:compile", "the generated code does not compile");
	if (!m.is_binary_translation_enabled()) { g.label("not translated"); return; }
	if (opts->translate_use_register_caching) g.label("~register caching");
	if (opts->use_shared_execute_segments) g.label("~arena through the machine");
	for (auto& it : items) {
		if (it.skip) continue;
		g.label(it.in->name);
		if (it.out == FAULT) g.label("~fault");
		g.nontrivial(mix(hash_bytes(&it.w, 4), hash_bytes(it.pre.x, sizeof it.pre.x, hash_bytes(it.pre.v, sizeof it.pre.v))));
		it.pre.mem = nullptr;
		load_state(m, it.pre);
		memcpy(arena(m), it.mem.data(), SIZE);
		m.cpu.jump(it.pc);
		m.set_instruction_counter(0);
		const Got got = attempt([&] { return m.simulate(UINT64_MAX, 0); }, &m);
		auto sig = [&](const char* k) { return fmt("jit:%s:%s", it.in->name, k); };
		const std::string where = fmt("translated %s (word %08x, %s) at 0x%lx: ", it.in->name, it.w, dis(m, it.w).c_str(), (unsigned long)it.pc);
		auto describe = [&]() {
			std::string s;
			for (unsigned r : {RD(it.w), RJ(it.w), RK(it.w), RA(it.w)}) s += fmt("\n    before: x%u=0x%lx v%u=%s", r, (unsigned long)it.pre.x[r], r, hex(it.pre.v[r].b, 32).c_str());
			s += fmt("\n    fcc=0x%x%s%s", it.pre.fcc, opts->translate_use_register_caching ? ", register caching" : "", opts->use_shared_execute_segments ? ", shared segments" : "");
			return s;
		};
		if (it.out == FAULT) {
			if (!got.threw) fail(sig("nofault"), where + fmt("accessed 0x%lx outside the permitted area without a protection fault", (unsigned long)it.post.fault_addr) + describe());
			if (got.type != loongarch::PROTECTION_FAULT) fail(sig("wrongfault"), where + fmt("raised exception type %d (%s), expected a protection fault", got.type, got.what.c_str()) + describe());
			if (memcmp(arena(m), it.mem.data(), SIZE)) fail(sig("faultwrote"), where + "modified memory although it faulted" + describe());
			continue;
		}
		if (got.threw) fail(sig("exception"), where + fmt("raised exception type %d (%s)", got.type, got.what.c_str()) + describe());
		ref::CPU exp = it.post;
		Mem mem; mem.data = it.mem2; exp.mem = &mem;
		exp.pc += 4;
		std::string kind, d = compare(m, exp, kind);
		if (!d.empty()) fail(sig(kind.c_str()), where + d + describe());
	}
	if (g.want_sample()) g.sample(fmt("%zu instructions translated in one block, each executed from a state of its own; the first: %s", items.size(), dis(m, items[0].w).c_str()));
}

PROP(jit_prog)
{
	Run r;
	Opts o;
	o.max_len = g.chance(30) ? 1200 : 160;
	o.branch_pct = g.pick({16u, 8u, 30u});
	o.sys_pct = g.pick({3u, 8u, 0u});
	o.weird_pct = g.pick({2u, 0u});
	if (g.chance(3)) { o.lay = LARGE; o.max_len = 14000; o.branch_pct = g.pick({3u, 1u, 8u}); o.weird_pct = 0; g.label("several blocks"); }
	Program p = gen(g, r, o, 4000);
	if (r.steps == 0) { g.label("nothing executed"); return; }
	auto opts = jit_options(g);
	const unsigned long f0 = tcc_standin_failed, c0 = tcc_standin_compiled;
	// the compiler may fail, and execution goes on in the interpreter
	const bool broken = g.chance(5);
	tcc_standin_break = broken;
	Real real(p, opts);
	tcc_standin_break = 0;
	Machine& m = *real.m;
	if (!broken && tcc_standin_failed != f0) fail("jit:compile", "the generated code does not compile" + listing(m, p));
	if (broken) {
		g.label("compiler failed");
		if (m.is_binary_translation_enabled()) fail("jit:claims", "binary translation is enabled although nothing was compiled");
	} else if (tcc_standin_compiled == c0 || !m.is_binary_translation_enabled()) { g.label("not translated"); return; }
	classify(g, p, r);
	std::string plan;
	switch (g.weighted({30, 25, 45})) {
	case 0: case 1: {
		// in one go
		const bool inacc = g.chance(40);
		if (r.ev == E_NONE) goto sliced;
		plan = inacc ? "one go, no counting" : "one go";
		g.label(inacc ? "inaccurate" : "one go");
		Got got = attempt([&] { if (!inacc) return m.simulate(UINT64_MAX, 0); m.cpu.simulate_inaccurate(p.lay.code); return true; }, &m);
		const char* tag = inacc ? "jit-inaccurate" : "jit";
		if (is_exception(r.ev)) compare_exception(m, p, r, got, tag, false);
		else {
			if (got.threw) fail(fmt("%s:unexpected:%d", tag, got.type), fmt("%s: exception type %d (%s) at pc 0x%lx", tag, got.type, got.what.c_str(), (unsigned long)got.pc) + listing(m, p, got.pc));
			if (!got.ret) fail(fmt("%s:ret", tag), fmt("%s: simulate() returned false although the program ended by %s", tag, event_name(r.ev)) + listing(m, p, r.c.pc));
			compare_running(m, p, r, tag);
		}
		break; }
	default: sliced: {
		if (opts->translate_ignore_instruction_limit) { g.label("unlimited"); return; }
		g.label("sliced");
		Run f; reset_run(p, f);
		uint64_t c = 0;
		const uint64_t lim0 = g.pick({5u, 60u, 700u, 3000u});
		for (unsigned n = 0; n < 60 && f.steps < r.steps; n++) {
			const uint64_t lim = 1 + g.draw(lim0);
			if (n < 12) plan += fmt(" %lu", (unsigned long)lim);
			if (r.ev == E_NONE && f.steps + lim + p.words.size() > r.steps) break;
			if (!slice(real, p, f, lim, c, r.steps, "jit")) break;
			if (f.ev == E_SYSSTOP) f.ev = E_NONE;
			c = m.instruction_counter();
		}
		break; }
	}
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed (%s), ended: %s", p.words.size(), (unsigned long)r.steps, plan.c_str(), event_name(r.ev)));
}

// Translation in the background: the translated code takes over while the program runs
PROP(jit_live)
{
	Run r;
	Opts o;
	o.max_len = g.chance(30) ? 1200 : 160;
	o.branch_pct = g.pick({16u, 8u, 30u});
	o.sys_pct = g.pick({3u, 8u, 0u});
	o.weird_pct = g.pick({2u, 0u});
	Program p = gen(g, r, o, 4000);
	if (r.steps == 0) { g.label("nothing executed"); return; }
	auto opts = jit_options(g);
	opts->translate_ignore_instruction_limit = false;
	std::vector<std::function<void()>> pending;
	std::thread worker;
	const unsigned how = (unsigned)g.weighted({60, 25, 15});
	opts->translate_background_callback = [&](const std::function<void()>& step) {
		if (how == 0) pending.push_back(step);
		else if (how == 1) step();
		else { auto prev = std::make_shared<std::thread>(std::move(worker)); worker = std::thread([step, prev] { if (prev->joinable()) prev->join(); step(); }); }
	};
	struct Join { std::thread& t; ~Join() { if (t.joinable()) t.join(); } } join{worker};
	const unsigned long f0 = tcc_standin_failed;
	Real real(p, opts);
	Machine& m = *real.m;
	const uint64_t lim0 = g.pick({5u, 60u, 700u, 3000u});
	const unsigned at = g.draw(8);
	const bool never = how == 0 && g.chance(5);
	Run f; reset_run(p, f);
	uint64_t c = 0;
	std::string plan;
	unsigned taken = 0;
	for (unsigned n = 0; n < 60 && f.steps < r.steps; n++) {
		if (how == 0 && n >= at && !never && !pending.empty()) {
			// one segment at a time
			pending.back()(); pending.pop_back();
			taken++;
			plan += " [translated]";
			if (f.steps) g.label("taken over in the middle");
		}
		const uint64_t lim = 1 + g.draw(lim0);
		if (n < 12) plan += fmt(" %lu", (unsigned long)lim);
		if (r.ev == E_NONE && f.steps + lim + p.words.size() > r.steps) break;
		if (!slice(real, p, f, lim, c, r.steps, "jit-live")) break;
		if (f.ev == E_SYSSTOP) f.ev = E_NONE;
		c = m.instruction_counter();
	}
	if (worker.joinable()) worker.join();
	if (tcc_standin_failed != f0) fail("jit:compile", "the generated code does not compile" + listing(m, p));
	g.label(how == 0 ? (taken ? "deferred" : "never translated") : how == 1 ? "at once" : "in a thread");
	classify(g, p, r);
	if (g.want_sample()) g.sample(fmt("%zu instructions, %lu executed in slices of%s, ended: %s", p.words.size(), (unsigned long)f.steps, plan.c_str(), event_name(f.ev)));
}

// Machines sharing their execute segments, with different memory layouts and options
PROP(jit_share)
{
	Run r0;
	Opts o;
	o.max_len = 160;
	o.branch_pct = g.pick({16u, 8u, 30u});
	o.sys_pct = g.pick({3u, 8u, 0u});
	Program p = gen(g, r0, o, 3000);
	if (r0.steps == 0) { g.label("nothing executed"); return; }
	struct One { std::shared_ptr<MachineOptions> opts; Program p; Run r; std::unique_ptr<Real> real; };
	std::vector<std::unique_ptr<One>> ms;
	const size_t n = 2 + g.draw(2);
	unsigned ran = 0, different = 0;
	for (size_t i = 0; i < n; i++) {
		auto one = std::make_unique<One>();
		one->opts = jit_options(g);
		one->opts->use_shared_execute_segments = !g.chance(10);
		one->opts->translate_unchecked_memory_accesses = g.chance(20);
		one->p = p;
		if (g.chance(50)) {
			const uint64_t d = 8 * g.draw(0x700);
			one->p.lay.data += d;
			one->p.data.erase(one->p.data.begin(), one->p.data.begin() + std::min<size_t>(d, one->p.data.size()));
			different++;
		}
		reset_run(one->p, one->r);
		prog::run(one->p, one->r, 3000, false);
		one->real = std::make_unique<Real>(one->p, one->opts);
		ms.push_back(std::move(one));
	}
	const size_t runs = n + g.draw(n);
	for (size_t k = 0; k < runs; k++) {
		One& a = *ms[k < n ? k : g.index(n)];
		if (!a.real) continue;
		const Run& r = a.r;
		Real& real = *a.real;
		Machine& m = *real.m;
		if (r.unspec || r.steps == 0) continue;
		if (a.opts->translate_unchecked_memory_accesses && (r.ev == E_FAULT || a.p.lay.data != p.lay.data)) continue;
		if (k >= n && g.chance(30)) { a.real.reset(); g.label("machine destroyed"); continue; }
		real.start();
		ran++;
		if (a.opts->translate_ignore_instruction_limit) {
			if (r.ev == E_NONE) continue;
			Got got = attempt([&] { return m.simulate(UINT64_MAX, 0); }, &m);
			if (is_exception(r.ev)) compare_exception(m, a.p, r, got, "jit-share", false);
			else compare_running(m, a.p, r, "jit-share");
			continue;
		}
		if (r.steps + 1 < 3 * a.p.words.size() && r.ev == E_NONE) continue;
		const uint64_t lim = r.ev == E_NONE ? 1 + g.draw(r.steps - 1 - std::min<uint64_t>(r.steps - 1, a.p.words.size())) : r.steps + is_exception(r.ev);
		Run f; reset_run(a.p, f);
		slice(real, a.p, f, lim, 0, r.steps, "jit-share");
	}
	if (different) g.label("different layouts");
	if (ran > 1) classify(g, p, r0);
	if (g.want_sample()) g.sample(fmt("%zu machines with the same program of %zu instructions, %u with a layout of its own, %u runs", n, p.words.size(), different, ran));
}

// Masked memory accesses: every access stays inside guest memory, at the address
// modulo the largest power of two that fits
PROP(jit_nbit)
{
	struct Op { uint32_t w; unsigned kind, size; uint64_t a, b; int64_t imm; uint64_t val; };
	const uint64_t size = 0x10000 + 0x1000 * (g.chance(30) ? (1u << g.draw(7)) : g.draw(256));
	uint64_t mask = 1;
	while (mask * 2 <= size) mask *= 2;
	mask--;
	auto opts = jit_options(g);
	opts->translate_automatic_nbit_address_space = true;
	auto m_ = bare(size, CODE, DATA);
	Machine& m = *m_;
	m.set_options(opts);
	static const struct { uint32_t w; unsigned kind, size; } ops[] = {
		{0x29000000, 0, 1}, {0x29400000, 0, 2}, {0x29800000, 0, 4}, {0x29C00000, 0, 8}, {0x27000000, 0, 8}, {0x25000000, 0, 4},
		{0x2A000000, 1, 1}, {0x2A400000, 1, 2}, {0x2A800000, 1, 4}, {0x28C00000, 1, 8}, {0x26000000, 1, 8},
		{0x381C0000, 2, 8}, {0x38180000, 2, 4}, {0x38100000, 2, 1}, {0x380C0000, 3, 8}, {0x38200000, 3, 1},
		{0x2BC00000, 4, 8}, {0x2B400000, 4, 4}, {0x2C400000, 4, 16}, {0x2C000000, 5, 16} };
	const size_t n = 1 + g.draw(60);
	std::vector<Op> seq;
	std::vector<uint32_t> code(3 * n, STOP_WORD);
	auto addr = [&]() -> uint64_t {
		switch (g.weighted({30, 20, 20, 20})) {
		case 0: return DATA + g.draw(size - DATA - 1);
		case 1: return size - 40 + g.draw(4096);
		case 2: return mask - 40 + g.draw(80);
		default: return g.u64();
		}
	};
	for (size_t i = 0; i < n; i++) {
		const auto& o = ops[g.index(sizeof ops / sizeof *ops)];
		Op op{o.w, o.kind, o.size, addr(), 0, 0, g.u64()};
		const bool idx = op.kind == 2 || op.kind == 3;
		if (idx) { op.b = g.u64(); op.a -= op.b; }
		else {
			const bool i14 = (o.w >> 24) >= 0x25 && (o.w >> 24) <= 0x27;
			op.imm = (int64_t)g.draw(i14 ? 0x3fff : 0xfff) - (i14 ? 0x2000 : 0x800);
			op.w |= (uint32_t)(op.imm & (i14 ? 0x3fff : 0xfff)) << 10;
			op.imm *= i14 ? 4 : 1;
			if (g.chance(60)) op.a -= op.imm;
		}
		op.w |= idx ? (13 << 10) | (12 << 5) | 14 : (12 << 5) | 14;
		seq.push_back(op);
		code[i] = B26OP(0x50000000, (int64_t)(n + 2 * i) - (int64_t)i);
		code[n + 2 * i] = op.w;
	}
	std::vector<uint8_t> mem(size + 64);
	for (auto& b : mem) b = (uint8_t)g.draw(255);
	memset(&mem[size], 0, 64);
	memcpy(&mem[CODE], code.data(), code.size() * 4);
	memcpy(arena(m), mem.data(), size);
	const unsigned long f0 = tcc_standin_failed;
	m.cpu.init_execute_area(code.data(), CODE, code.size() * 4);
	if (tcc_standin_failed != f0) fail("nbit:compile", "the generated code does not compile");
	if (!m.is_binary_translation_enabled()) { g.label("not translated"); return; }
	g.label(size & (size - 1) ? "not a power of two" : "power of two");
	for (size_t i = 0; i < n; i++) {
		const Op& op = seq[i];
		const uint64_t full = op.a + op.b + op.imm, ea = full & mask;
		if (full > mask) g.label("beyond the mask");
		g.nontrivial(mix(hash_bytes(&op, sizeof op), size));
		m.cpu.registers().reset();
		m.cpu.reg(12) = op.a; m.cpu.reg(13) = op.b; m.cpu.reg(14) = op.val;
		auto& v = m.cpu.registers().getvr(14);
		for (int k = 0; k < 4; k++) v.du[k] = op.val * (2 * k + 1);
		// (accesses of 16 bytes are two masked accesses of 8 bytes)
		uint64_t want[2] = {0, 0};
		for (unsigned k = 0; k < op.size; k += 8) {
			const uint64_t at = (full + k) & mask;
			const uint64_t val = op.kind == 4 ? op.val * (k ? 3 : 1) : op.val;
			if (op.kind == 0 || op.kind == 2 || op.kind == 4) memcpy(&mem[at], &val, std::min(8u, op.size));
			else memcpy(&want[k / 8], &mem[at], std::min(8u, op.size));
		}
		m.cpu.jump(CODE + 4 * i);
		const Got got = attempt([&] { return m.simulate(UINT64_MAX, 0); }, &m);
		const std::string where = fmt("word %08x at address 0x%lx of a memory of 0x%lx bytes: ", op.w, (unsigned long)full, (unsigned long)size);
		if (got.threw) fail("nbit:exception", where + fmt("exception %d (%s)", got.type, got.what.c_str()));
		if (op.kind == 1 || op.kind == 3) {
			uint64_t have = m.cpu.reg(14);
			if (have != want[0]) fail("nbit:load", where + fmt("loaded 0x%lx, expected 0x%lx from 0x%lx", (unsigned long)have, (unsigned long)want[0], (unsigned long)ea));
		}
		if (op.kind == 5 && (v.du[0] != want[0] || v.du[1] != want[1])) fail("nbit:vload", where + "loaded other bytes");
		if (memcmp(arena(m), mem.data(), mem.size())) {
			size_t k = 0; while (arena(m)[k] == mem[k]) k++;
			fail("nbit:mem", where + fmt("memory at 0x%zx is %02x, expected %02x", k, arena(m)[k], mem[k]));
		}
	}
	if (g.want_sample()) g.sample(fmt("%zu masked accesses to a memory of 0x%lx bytes (mask 0x%lx)", n, (unsigned long)size, (unsigned long)mask));
}
#endif
