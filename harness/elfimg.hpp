// Minimal executables built in memory, and machines that run them.
#pragma once
#include "vm.hpp"
#include "elfbuild.hpp"

namespace elfimg {
// A machine together with the file it was loaded from
struct Loaded {
	std::string file;
	std::shared_ptr<loongarch::MachineOptions> opts;
	std::unique_ptr<loongarch::Machine> m;
	loongarch::Machine& operator*() { return *m; }
	loongarch::Machine* operator->() { return m.get(); }
};
inline Loaded load(const Image& im, size_t memory = 0x200000, size_t stack = 0x20000, size_t brk = 0x10000)
{
	Loaded l;
	l.file = build(im);
	l.opts = vm::options();
	l.opts->memory_max = memory; l.opts->stack_size = stack; l.opts->brk_size = brk;
	l.m = std::make_unique<loongarch::Machine>(std::string_view(l.file), *l.opts);
	l.m->set_options(l.opts);
	return l;
}

// A tiny assembler
struct Asm {
	std::vector<uint32_t>& w;
	uint64_t base;
	explicit Asm(Image& im) : w(im.code), base(im.code_va) {}
	Asm(std::vector<uint32_t>& v, uint64_t b) : w(v), base(b) {}
	uint64_t here() const { return base + w.size() * 4; }
	void raw(uint32_t x) { w.push_back(x); }
	static uint32_t i12(uint32_t op, unsigned rd, unsigned rj, int64_t imm) { return op | (uint32_t)(imm & 0xfff) << 10 | rj << 5 | rd; }
	void ori(unsigned rd, unsigned rj, unsigned imm) { raw(i12(0x03800000, rd, rj, imm)); }
	void addi_d(unsigned rd, unsigned rj, int imm) { raw(i12(0x02c00000, rd, rj, imm)); }
	void st_d(unsigned rd, unsigned rj, int off) { raw(i12(0x29c00000, rd, rj, off)); }
	void ld_d(unsigned rd, unsigned rj, int off) { raw(i12(0x28c00000, rd, rj, off)); }
	void st_w(unsigned rd, unsigned rj, int off) { raw(i12(0x29800000, rd, rj, off)); }
	void st_b(unsigned rd, unsigned rj, int off) { raw(i12(0x29000000, rd, rj, off)); }
	void ld_bu(unsigned rd, unsigned rj, int off) { raw(i12(0x2a000000, rd, rj, off)); }
	void fst_d(unsigned fd, unsigned rj, int off) { raw(i12(0x2bc00000, fd, rj, off)); }
	void fld_d(unsigned fd, unsigned rj, int off) { raw(i12(0x2b800000, fd, rj, off)); }
	void vst(unsigned vd, unsigned rj, int off) { raw(i12(0x2c400000, vd, rj, off)); }
	void xvst(unsigned vd, unsigned rj, int off) { raw(i12(0x2cc00000, vd, rj, off)); }
	void xvld(unsigned vd, unsigned rj, int off) { raw(i12(0x2c800000, vd, rj, off)); }
	// any 64-bit constant: lu12i.w, ori, lu32i.d, lu52i.d
	void li(unsigned rd, uint64_t v)
	{
		raw(0x14000000u | (uint32_t)((v >> 12) & 0xfffff) << 5 | rd);
		ori(rd, rd, v & 0xfff);
		raw(0x16000000u | (uint32_t)((v >> 32) & 0xfffff) << 5 | rd);
		raw(0x03000000u | (uint32_t)((v >> 52) & 0xfff) << 10 | rd << 5 | rd);
	}
	void jirl(unsigned rd, unsigned rj, int off) { raw(0x4c000000u | (uint32_t)((off >> 2) & 0xffff) << 10 | rj << 5 | rd); }
	void ret() { jirl(0, 1, 0); }
	void b(int64_t off) { off >>= 2; raw(0x50000000u | (uint32_t)(off & 0xffff) << 10 | (uint32_t)((off >> 16) & 0x3ff)); }
	void bnez(unsigned rj, int64_t off) { off >>= 2; raw(0x44000000u | (uint32_t)(off & 0xffff) << 10 | rj << 5 | (uint32_t)((off >> 16) & 0x1f)); }
	void syscall(unsigned nr) { ori(11, 0, nr); raw(0x002b0000); }
	void stop() { raw(vm::STOP_WORD); }
	void nop() { raw(0x03400000); }
	// loop n times (1 <= n < 2048): 1 + 2n instructions
	void delay(unsigned reg, unsigned n) { ori(reg, 0, n); addi_d(reg, reg, -1); bnez(reg, -4); }
};
enum { RA = 1, TP = 2, SP = 3, A0 = 4, A1 = 5, A2 = 6, A7 = 11, T0 = 12, T1 = 13, T2 = 14, T8 = 20, FP = 22, S0 = 23 };
} // elfimg
