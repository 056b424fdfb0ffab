// Random whole programs, and the reference run of them.
#pragma once
#include "vm.hpp"
#include "isagen.hpp"

namespace prog {
using namespace ref;
using pbt::Gen;

struct Layout { uint64_t code, data, size; };
constexpr Layout SMALL{0x4000, 0x8000, 0x10000};
constexpr Layout LARGE{0x10000, 0x310000, 0x320000};

constexpr uint32_t SYSCALL_WORD = 0x002b0000, BREAK_WORD = 0x002a0000, NOP_WORD = 0x03400000;
// host calls the programs make
enum { SYS_LOG = 401, SYS_STOP = 402, SYS_JUMP = 403, SYS_THROW = 404, SYS_POKE = 405 };
constexpr int THROW_TYPE = loongarch::GUEST_ABORT;

enum Event { E_NONE, E_STOP, E_FAULT, E_SYSSTOP, E_SYSTHROW, E_UNKNOWNSYS, E_EXEC };
inline const char* event_name(Event e) { static const char* n[] = {"running", "stop", "fault", "machine.stop()", "syscall threw", "unknown syscall", "execute fault"}; return n[e]; }

struct Program {
	Layout lay;
	std::vector<uint32_t> words;
	size_t split = 0;           // first word of the second execute segment, or 0
	ref::CPU init;              // initial registers (mem pointer is reset by users)
	std::vector<uint8_t> data;  // initial data area
	uint64_t end() const { return lay.code + words.size() * 4; }
};

constexpr unsigned R_BASE0 = 22, R_BASE1 = 23, R_IDX = 20, R_CNT = 21;
inline bool reserved(unsigned r) { return r >= 20 && r <= 23; }

// number of vector bytes an instruction reads from its vector operands
inline unsigned vneed(const Insn& in)
{
	if (isagen::is_lasx(in)) return 32;
	if (isagen::is_lsx(in)) return 16;
	if (isagen::is_fp(in) || in.fmt == FI12 || in.fmt == FX) {
		const char* s = strstr(in.name, ".");
		bool d = false;
		for (; s; s = strstr(s + 1, ".")) if (!strncmp(s, ".d", 2) || !strncmp(s, ".l", 2)) d = true;
		return d || !strncmp(in.name, "fsel", 4) ? 8 : 4;
	}
	return 0;
}

inline uint32_t I12(uint32_t op, unsigned rd, unsigned rj, int imm) { return op | ((uint32_t)(imm & 0xfff) << 10) | rj << 5 | rd; }
inline uint32_t ORI(unsigned rd, unsigned rj, unsigned imm) { return 0x03800000u | (imm & 0xfff) << 10 | rj << 5 | rd; }
inline uint32_t ADDI_D(unsigned rd, unsigned rj, int imm) { return I12(0x02c00000, rd, rj, imm); }
inline uint32_t B16OP(uint32_t op, unsigned rj, unsigned rd, int64_t off) { return op | (uint32_t)(off & 0xffff) << 10 | rj << 5 | rd; }
inline uint32_t B21OP(uint32_t op, unsigned rj, int64_t off) { return op | (uint32_t)(off & 0xffff) << 10 | rj << 5 | (uint32_t)((off >> 16) & 0x1f); }
inline uint32_t B26OP(uint32_t op, int64_t off) { return op | (uint32_t)(off & 0xffff) << 10 | (uint32_t)((off >> 16) & 0x3ff); }
inline uint32_t PCADDI(unsigned rd, int64_t off) { return 0x18000000u | (uint32_t)(off & 0xfffff) << 5 | rd; }

// One straight-line instruction
inline uint32_t straight(Gen& g, unsigned weird_pct)
{
	static const int W_INT = 0, W_MEM = 1, W_FP = 2, W_LSX = 3, W_LASX = 4;
	const size_t k = g.weighted({46, 26, 12, 9, 7});
	const Cls cls = k == (size_t)W_INT ? CL_INT : k == (size_t)W_MEM ? CL_MEM : k == (size_t)W_FP ? CL_FP : k == (size_t)W_LSX ? CL_LSX : CL_LASX;
	(void)W_LASX;
	const auto& pool = isagen::pool(cls);
	const Insn& in = *pool[g.index(pool.size())];
	uint32_t bits = (uint32_t)g.raw64();
	const bool weird = weird_pct && g.chance(weird_pct);
	auto put = [&](uint32_t w, unsigned lo, unsigned n, uint32_t v) { const uint32_t m = (((1u << n) - 1) << lo) & ~in.mask; return (w & ~m) | ((v << lo) & m); };
	uint32_t w = in.match | (bits & ~in.mask);
	const unsigned vn = vneed(in);
	const bool mem = isagen::is_mem(in);
	const bool gpr_dest = !vn || isagen::is_fp(in) || isagen::is_lsx(in) || isagen::is_lasx(in);
	// keep vector registers of one kind together most of the time
	if (vn && !(bits >> 31)) {
		const unsigned base = vn == 4 ? 0 : vn == 8 ? 8 : vn == 16 ? 16 : 24;
		w = put(w, 0, 5, base + RD(w) % 8);
		if (!mem) {
			const bool fromgpr = strstr(in.name, "gr2") != nullptr;
			if (!fromgpr) w = put(w, 5, 5, base + RJ(w) % 8);
			if (in.fmt == F3 || in.fmt == F4 || in.fmt == FCMP || in.fmt == FSEL || in.fmt == V3 || in.fmt == V4 || in.fmt == X3 || in.fmt == X4) w = put(w, 10, 5, base + RK(w) % 8);
			if (in.fmt == F4 || in.fmt == V4 || in.fmt == X4) w = put(w, 15, 5, base + RA(w) % 8);
		}
	}
	if (in.fmt == BSD) { uint32_t m = field(w, 16, 6), l = field(w, 10, 6); if (m < l) { w = put(w, 16, 6, l); w = put(w, 10, 6, m); } }
	if (in.fmt == BSW) { uint32_t m = field(w, 16, 5), l = field(w, 10, 5); if (m < l) { w = put(w, 16, 5, l); w = put(w, 10, 5, m); } }
	if (mem && !weird) {
		const unsigned base = (bits & 1) ? R_BASE0 : R_BASE1;
		w = put(w, 5, 5, base);
		if (in.fmt == R3 || in.fmt == FX || in.fmt == VX || in.fmt == XX) w = put(w, 10, 5, R_IDX);
		if (in.fmt == I14S) w = put(w, 10, 14, (uint32_t)sext(field(w, 10, 10), 10));
	}
	if (in.fmt == PRELD && !weird) w = put(w, 5, 5, R_BASE0);
	// do not overwrite the reserved registers
	if (gpr_dest && !(isagen::is_mem(in) && vn) && reserved(RD(w)) && !weird) w = put(w, 0, 5, RD(w) - 8);
	// results into $zero are discarded
	if (gpr_dest && !(mem && vn) && g.chance(5)) w = put(w, 0, 5, 0);
	if (w == vm::STOP_WORD) w = NOP_WORD;
	return w;
}

struct Opts { size_t max_len = 200; unsigned branch_pct = 16; unsigned weird_pct = 2; unsigned sys_pct = 3; bool two_segments = true; bool stops = true; Layout lay = SMALL; };

inline Program make(Gen& g, const Opts& o)
{
	Program p;
	p.lay = o.lay;
	const size_t cap = (o.lay.data - o.lay.code) / 4 - 8;
	size_t n = 4 + g.draw(std::min(o.max_len, cap) - 4);
	if (g.chance(40)) n = 4 + n % 24;
	p.words.reserve(n + 8);
	std::vector<uint8_t> is_filler;
	if (o.two_segments && n > 16 && g.chance(25)) p.split = n / 4 + g.draw(n / 2);
	auto lo_of = [&](size_t i) -> int64_t { return p.split && i >= p.split ? (int64_t)p.split : 0; };
	auto hi_of = [&](size_t i) -> int64_t { return p.split && i < p.split ? (int64_t)p.split - 1 : (int64_t)n - 1; };
	auto target = [&](size_t i) -> int64_t {
		const int64_t lo = lo_of(i), hi = hi_of(i);
		int64_t t;
		switch (g.weighted({50, 20, 30})) {
		case 0: t = (int64_t)i + 1 + (int64_t)g.draw(12); break;
		case 1: t = (int64_t)i - (int64_t)g.draw(12); break;
		default: t = lo + (int64_t)g.draw(hi - lo); break;
		}
		if (t < lo) t = lo;
		if (t > hi) t = hi;
		return t;
	};
	static const uint32_t COND[] = {0x58000000, 0x5c000000, 0x60000000, 0x64000000, 0x68000000, 0x6c000000};
	while (p.words.size() < n) {
		const size_t i = p.words.size();
		if (p.split && i + 1 == p.split) { p.words.push_back(NOP_WORD); continue; }
		if (g.chance(o.branch_pct)) {
			const int64_t t = target(i);
			const int64_t off = t - (int64_t)i;
			switch (g.weighted({30, 16, 10, 8, 12, 12, 5, 7})) {
			case 0: { const uint32_t op = COND[g.draw(5)]; const unsigned rj = g.draw(31), rd = g.chance(25) ? rj : g.draw(31); p.words.push_back(off >= -32768 && off < 32768 ? B16OP(op, rj, rd, off) : NOP_WORD); break; }
			case 1: { const uint32_t op = g.chance(50) ? 0x44000000u : 0x40000000u; p.words.push_back(off >= -(1 << 20) && off < (1 << 20) ? B21OP(op, g.draw(31), off) : NOP_WORD); break; }
			case 2: { const uint32_t cf = g.draw(7); const uint32_t op = g.chance(50) ? 0x48000100u : 0x48000000u; p.words.push_back(off >= -(1 << 20) && off < (1 << 20) ? B21OP(op, cf, off) : NOP_WORD); break; }
			case 3: p.words.push_back(B26OP(0x50000000, off)); break;
			case 4: p.words.push_back(B26OP(0x54000000, off)); break;
			case 5: { // jump through a register
				const int64_t k = (int64_t)g.draw(15) - 8;
				const unsigned rj = g.chance(70) ? R_CNT : 1 + g.draw(18);
				const unsigned rd = g.weighted({40, 30, 15, 15}); // 0: none 1: ra 2: same 3: other
				p.words.push_back(PCADDI(rj, off - k));
				p.words.push_back(B16OP(0x4c000000, rj, rd == 0 ? 0 : rd == 1 ? 1 : rd == 2 ? rj : 12, k));
				break;
			}
			case 6: p.words.push_back(B16OP(0x4c000000, 1, 0, 0)); break;   // return
			default: { // counted loop back edge
				int64_t back = -(int64_t)g.draw(10) - 1;
				if ((int64_t)i + 1 + back < lo_of(i)) back = lo_of(i) - (int64_t)i - 1;
				p.words.push_back(ADDI_D(R_CNT, R_CNT, -1));
				p.words.push_back(B21OP(0x44000000, R_CNT, back));
				break;
			}
			}
		} else if (o.sys_pct && g.chance(o.sys_pct)) {
			switch (g.weighted({40, o.stops ? 20u : 0u, 12, 6, 20, 4, 10, 12})) {
			case 7: if (!g.chance(15)) p.words.push_back(PCADDI(1, 2)); p.words.push_back(SYSCALL_WORD | (g.chance(8) ? 1 + (uint32_t)g.draw(1022) : g.pick({(uint32_t)SYS_LOG, (uint32_t)SYS_LOG, (uint32_t)SYS_POKE, (uint32_t)SYS_JUMP, (uint32_t)(o.stops ? SYS_STOP : SYS_LOG), (uint32_t)SYS_THROW}))); break;
			case 0: p.words.push_back(ORI(11, 0, SYS_LOG)); p.words.push_back(SYSCALL_WORD); break;
			case 1: p.words.push_back(ORI(11, 0, SYS_STOP)); p.words.push_back(SYSCALL_WORD); break;
			case 2: p.words.push_back(ORI(11, 0, SYS_JUMP)); p.words.push_back(PCADDI(5, target(i) - (int64_t)i - 1)); p.words.push_back(SYSCALL_WORD); break;
			case 3: p.words.push_back(ORI(11, 0, SYS_THROW)); p.words.push_back(SYSCALL_WORD); break;
			case 4: p.words.push_back(ORI(11, 0, SYS_POKE)); p.words.push_back(SYSCALL_WORD); break;
			case 5: p.words.push_back(SYSCALL_WORD); break;
			default: p.words.push_back(BREAK_WORD | (uint32_t)g.draw(0x3ff)); break;
			}
		} else if (o.stops && g.chance(1)) p.words.push_back(vm::STOP_WORD);
		else if (g.chance(3)) { // refresh the index and counter registers
			p.words.push_back(ORI(g.chance(50) ? R_IDX : R_CNT, 0, g.draw(0x3f)));
		} else p.words.push_back(straight(g, o.weird_pct));
	}
	p.words.resize(n);
	if (p.split) {
		// leave the first segment by an indirect jump
		const size_t i = p.split - 2;
		const int64_t t = (int64_t)p.split + (int64_t)g.draw(n - p.split - 1);
		const int64_t k = (int64_t)g.draw(15) - 8;
		p.words[i] = PCADDI(R_CNT, t - (int64_t)i - k);
		p.words[i + 1] = B16OP(0x4c000000, R_CNT, g.pick({0u, 1u, 12u}), k);
	}
	p.words.push_back(vm::STOP_WORD);
	n = p.words.size();
	// registers and data
	uint64_t seed = g.draw(0xffff);
	uint64_t s = seed * 131 + 17;
	for (int i = 1; i < 32; i++) p.init.x[i] = g.chance(30) ? g.u64() : isagen::bgmix(s);
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) { uint64_t r = isagen::bgmix(s); memcpy(p.init.v[i].b + 8 * k, &r, 8); }
	p.init.fcc = isagen::bgmix(s) & 0xff;
	const uint64_t dsz = p.lay.size - p.lay.data;
	p.init.x[R_BASE0] = p.lay.data + dsz / 2 - 0x800 + 32 * g.draw(63);
	p.init.x[R_BASE1] = p.lay.data + dsz / 2 + 0x800 + g.draw(63);
	p.init.x[R_IDX] = g.draw(256);
	p.init.x[R_CNT] = 1 + g.draw(20);
	p.init.x[1] = p.lay.code + 4 * g.draw(n - 1);
	p.init.pc = p.lay.code;
	p.data.resize(dsz);
	for (size_t a = 0; a + 8 <= dsz; a += 8) { uint64_t r = isagen::bgmix(s); memcpy(&p.data[a], &r, 8); }
	return p;
}

inline bool transfer(uint32_t w) { const unsigned op = w >> 26; return op >= 0x10 && op <= 0x1b; }

struct Run {
	ref::CPU c;
	Mem mem;
	Event ev = E_NONE;
	uint64_t steps = 0;           // executed instructions, including the one that ended the run
	std::vector<uint64_t> log;    // values seen by host calls
	std::vector<uint64_t> transfers; // step numbers (1-based) of taken transfers
	uint64_t fault_pc = 0;
	bool unspec = false;          // ran into something unspecified beyond the prepared horizon
	unsigned skip_stops = 0, skipped = 0; // machine.stop() calls to run through
};

inline void reset_run(const Program& p, Run& r)
{
	r.c = p.init;
	r.mem.data.assign(p.lay.size, 0);
	r.mem.windows.clear();
	if (LA_MASKED_MEMORY_BITS > 20) vm::add_windows(r.mem, p.lay.size);
	r.mem.rd_lo = p.lay.code; r.mem.wr_lo = p.lay.data;
	if (vm::MASK) { r.mem.mask = vm::MASK; r.mem.ro_lo = p.lay.code; r.mem.ro_hi = p.end(); }
	memcpy(&r.mem.data[p.lay.code], p.words.data(), p.words.size() * 4);
	memcpy(&r.mem.data[p.lay.data], p.data.data(), p.data.size());
	r.c.mem = &r.mem;
	r.c.clear_marks();
	r.ev = E_NONE; r.steps = 0; r.log.clear(); r.transfers.clear(); r.skipped = 0; r.unspec = false;
}

// what the host handlers do, on the reference
inline Event ref_syscall(Run& r, uint64_t num)
{
	auto& c = r.c;
	switch ((uint32_t)num) {
	case 0: r.log.push_back(c.pc ^ 0xb4ea); c.x[4] ^= 0x5555; c.pc += 4; return E_NONE;
	case SYS_LOG: r.log.push_back(c.x[4]); c.x[4] = c.x[4] * 3 + 1; c.pc += 4; return E_NONE;
	case SYS_STOP: c.pc += 4; return E_SYSSTOP;
	case SYS_JUMP: r.log.push_back(c.pc); c.pc = c.x[5]; return E_NONE;
	case SYS_THROW: return E_SYSTHROW;
	case SYS_POKE: { uint64_t a = r.mem.wr_lo + (c.x[4] & 0xff8); memcpy(&r.mem.data[a], &c.x[5], 8); c.x[6] = c.pc; c.pc += 4; return E_NONE; }
	}
	return E_UNKNOWNSYS;
}

// Runs until `max` steps in total, an event, or the end.  When `patch` is given,
// instructions whose result the architecture leaves open are replaced by NOP in
// the program (restarting when the old word had been executed already).
inline void run(Program& p, Run& r, uint64_t max, bool patch)
{
	static thread_local std::vector<uint8_t> seen;
	if (patch) seen.assign(p.words.size(), 0);
	unsigned restarts = 0;
	while (r.steps < max && r.ev == E_NONE) {
		auto& c = r.c;
		const uint64_t idx = (c.pc - p.lay.code) / 4;
		if (c.pc < p.lay.code || c.pc >= p.end() || (c.pc & 3)) { r.ev = E_EXEC; r.fault_pc = c.pc; return; }
		uint32_t w = p.words[idx];
		if (w == vm::STOP_WORD) { c.pc += 4; r.steps++; r.ev = E_STOP; return; }
		// a system call with a code is a host function: its number is the code, and it returns to ra
		const bool immcall = (w & 0xfffffc00) == SYSCALL_WORD && w != SYSCALL_WORD;
		const bool immbad = immcall && ((c.x[1] & 3) || !c.xdef[1]);
		if (w == SYSCALL_WORD || (immcall && !immbad) || (w & 0xffff8000) == BREAK_WORD) {
			const uint64_t at = c.pc;
			r.steps++;
			r.ev = ref_syscall(r, w == SYSCALL_WORD ? c.x[11] : immcall ? w & 0x3ff : 0);
			if (immcall && (r.ev == E_NONE || r.ev == E_SYSSTOP)) c.pc = c.x[1];
			if (r.ev == E_SYSTHROW || r.ev == E_UNKNOWNSYS) r.fault_pc = c.pc;
			else if (c.pc != at + 4) r.transfers.push_back(r.steps);
			if (r.ev == E_SYSSTOP && r.skipped < r.skip_stops) { r.skipped++; r.ev = E_NONE; }
			continue;
		}
		bool bad = immbad;
		const Insn* in = find(w);
		ref::CPU* save = nullptr;
		static thread_local ref::CPU saved;
		uint64_t vbefore_need = in ? vneed(*in) : 0;
		uint8_t old_vdef[32];
		if (vbefore_need) {
			memcpy(old_vdef, c.vdef, 32);
			const bool vmem = isagen::is_mem(*in);
			{
				auto partial = [&](unsigned reg) { return c.vdef[reg] < vbefore_need; };
				if (vmem) { if (strstr(in->name, "st") && partial(RD(w))) bad = true; }
				else if (in->fmt != FR && (partial(RJ(w)) || partial(RK(w)) || partial(RA(w)) || ((isagen::is_lsx(*in) || isagen::is_lasx(*in)) && partial(RD(w))))) bad = true;
			}
		}
		const uint64_t pc = c.pc;
		Outcome o = OK;
		if (!bad) {
			if (patch) { saved = c; save = &saved; }
			const ref::Vec oldv = c.v[RD(w)];
			if (vbefore_need) c.vdef[RD(w)] = 32;
			o = c.step(w);
			if (o == UNSPEC || o == UNKNOWN || o == STOP) bad = true;
			else if (o == FAULT) {
				if (r.mem.mask) bad = true;   // (outside of what is compared, or the code)
				if (c.fault_addr >= p.lay.size - 32 && c.fault_addr < p.lay.size) bad = true;
				if (isagen::is_load(*in) && RD(w) == 0) bad = true;
			} else {
				for (unsigned reg : {RD(w), RJ(w)}) if (!c.xdef[reg]) bad = true;
				if (vbefore_need && c.lane_nan[RD(w)]) {
					const unsigned ls = c.lane_nan[RD(w)];
					for (unsigned k = 0; k + ls <= c.vdef[RD(w)]; k += ls) {
						if (ls == 4) { float f; memcpy(&f, &c.v[RD(w)].b[k], 4); if (f != f) bad = true; }
						else { double f; memcpy(&f, &c.v[RD(w)].b[k], 8); if (f != f) bad = true; }
					}
				}
				// writes into the code area are impossible; jumps to unaligned addresses are not specified
				if (c.pc & 3) bad = true;
			}
			if (!bad && vbefore_need) {
				c.lane_nan[RD(w)] = 0;
				if (c.vdef[RD(w)] == 32 && !memcmp(oldv.b, c.v[RD(w)].b, 32)) c.vdef[RD(w)] = old_vdef[RD(w)];
			}
		}
		if (bad && patch) {
			// (an execute segment never ends in straight-line code)
			const uint32_t nw = p.split && idx + 1 == p.split ? vm::STOP_WORD : NOP_WORD;
			p.words[idx] = nw;
			memcpy(&r.mem.data[pc], &nw, 4);
			if (seen[idx]) {
				if (++restarts > 200) { r.ev = E_UNKNOWNSYS; r.steps = 0; return; }
				reset_run(p, r);
				seen.assign(p.words.size(), 0);
			} else if (save) {
				// undo the effects of the abandoned instruction; one that wrote memory starts over
				if (isagen::is_mem(*in) && !isagen::is_load(*in)) {
					reset_run(p, r); seen.assign(p.words.size(), 0); if (++restarts > 200) { r.ev = E_UNKNOWNSYS; r.steps = 0; return; }
				} else r.c = saved;
			}
			continue;
		}
		if (bad) { r.unspec = true; return; }
		if (patch) seen[idx] = 1;
		r.steps++;
		if (o == FAULT) { r.ev = E_FAULT; r.fault_pc = pc; return; }
		if (transfer(w) && c.pc != pc + 4) r.transfers.push_back(r.steps);
	}
}

// Prepare a program: patch it, then execute the patched program from the start.
// (It may read its own code, so patching can change what it does.)
inline bool prepare(Program& p, Run& r, uint64_t max)
{
	for (int i = 0; i < 4; i++) {
		const std::vector<uint32_t> before = p.words;
		reset_run(p, r);
		run(p, r, max, true);
		if (r.steps == 0) return false;
		if (i && before == p.words) return true;
		reset_run(p, r);
		run(p, r, max, false);
		if (!r.unspec) return r.steps != 0;
	}
	return false;
}
} // prog
