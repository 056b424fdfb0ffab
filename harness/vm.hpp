// Bridge between the reference CPU and a real libloong Machine.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <libloong/machine.hpp>
#include <libloong/la_instr.hpp>
#include <memory>

namespace vm {
using loongarch::Machine;
using loongarch::MachineOptions;
using loongarch::MachineException;

constexpr uint64_t CODE = 0x4000;      // read-only area (code lives here)
constexpr uint64_t DATA = 0x8000;      // first writable byte
constexpr uint64_t SIZE = 0x10000;     // end of guest memory
constexpr uint32_t STOP_WORD = 0x00150000;  // or $zero,$zero,$zero

enum Mode { STEP, FAST, INACC };
inline const char* mode_name(Mode m) { return m == STEP ? "step" : m == FAST ? "fast" : "inacc"; }

inline std::shared_ptr<MachineOptions> options()
{
	auto o = std::make_shared<MachineOptions>();
	o->use_shared_execute_segments = false;
	return o;
}
// Builds with masked memory: every guest address counts modulo 2^N
constexpr uint64_t MASK = LA_MASKED_MEMORY_BITS ? (1ull << LA_MASKED_MEMORY_BITS) - 1 : 0;
#if LA_MASKED_MEMORY_BITS
inline std::unique_ptr<Machine> bare(uint64_t size = SIZE, uint64_t ro = CODE, uint64_t data = DATA);
#else
inline std::unique_ptr<Machine> bare(uint64_t size = SIZE, uint64_t ro = CODE, uint64_t data = DATA)
{
	auto o = options();
	auto m = std::make_unique<Machine>(std::string_view{}, *o);
	m->set_options(o);
	m->memory.allocate_custom_arena(size, ro, data);
	return m;
}
#endif
inline uint8_t* arena(Machine& m) { return const_cast<uint8_t*>(m.memory.arena_ptr()); }

// Of memories of gigabytes: the parts at the end of the signed and unsigned 32-bit range
inline void add_windows(ref::Mem& mem, uint64_t low)
{
	mem.windows.push_back({0, low, 0});
	mem.add_window(0x80000000ull - 0x1000, 0x2000);
	mem.add_window(0x100000000ull - 0x1000, 0x1000);
}
inline std::vector<ref::Mem::Window> windows(const ref::Mem& mem)
{
	if (!mem.windows.empty()) return mem.windows;
	return {{0, mem.data.size(), 0}};
}
inline void copy_in(Machine& m, const ref::Mem& mem) { for (auto& w : windows(mem)) memcpy(arena(m) + w.addr, &mem.data[w.off], w.len); }

// Copy the whole reference state into the machine
inline void load_state(Machine& m, const ref::CPU& c)
{
	auto& r = m.cpu.registers();
	r.reset();
	for (int i = 0; i < 32; i++) r.get(i) = c.x[i];
	for (int i = 0; i < 32; i++) memcpy(&r.getvr(i), c.v[i].b, 32);
	for (int i = 0; i < 8; i++) r.set_cf(i, (c.fcc >> i) & 1);
	m.cpu.set_ll_bit(c.ll);
	r.pc = c.pc;
	if (c.mem) copy_in(m, *c.mem);
}
inline uint8_t fcc_of(Machine& m) { uint8_t f = 0; for (int i = 0; i < 8; i++) f |= m.cpu.registers().cf(i) << i; return f; }

template <typename F, typename U> inline bool lane_eq(const uint8_t* a, const uint8_t* b) {
	U x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y);
	if (x == y) return true;
	F fx, fy; memcpy(&fx, a, sizeof fx); memcpy(&fy, b, sizeof fy);
	return fx != fx && fy != fy;
}
inline bool vec_equal(const ref::CPU& c, int i, const uint8_t* got)
{
	const unsigned n = c.vdef[i];
	if (c.lane_nan[i] == 0) return memcmp(c.v[i].b, got, n) == 0;
	if (c.lane_nan[i] == 4) { for (unsigned k = 0; k + 4 <= n; k += 4) if (!lane_eq<float, uint32_t>(&c.v[i].b[k], got + k)) return false; return true; }
	for (unsigned k = 0; k + 8 <= n; k += 8) if (!lane_eq<double, uint64_t>(&c.v[i].b[k], got + k)) return false;
	return true;
}
inline std::string hex(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = n; i-- > 0;) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]); s += b; if (i % 8 == 0 && i) s += '_'; } return s; }

// Returns "" when the machine agrees with the reference on everything specified;
// otherwise a short kind in `kind` and a description.
inline std::string compare(Machine& m, const ref::CPU& c, std::string& kind, bool check_mem = true, bool check_pc = true)
{
	auto& r = m.cpu.registers();
	if (r.get(0) != 0) { kind = "r0"; return pbt::fmt("$zero holds 0x%lx", (unsigned long)r.get(0)); }
	for (int i = 0; i < 32; i++)
		if (c.xdef[i] && r.get(i) != c.x[i]) { kind = "gpr"; return pbt::fmt("r%d: got 0x%lx, reference 0x%lx", i, (unsigned long)r.get(i), (unsigned long)c.x[i]); }
	for (int i = 0; i < 32; i++)
		if (!vec_equal(c, i, (const uint8_t*)&r.getvr(i))) { kind = "vec"; return pbt::fmt("v%d: got %s, reference %s (low %u bytes compared)", i, hex(&r.getvr(i), 32).c_str(), hex(c.v[i].b, 32).c_str(), c.vdef[i]); }
	if (fcc_of(m) != c.fcc) { kind = "fcc"; return pbt::fmt("fcc: got 0x%x, reference 0x%x", fcc_of(m), c.fcc); }
	if (check_pc && r.pc != c.pc) { kind = "pc"; return pbt::fmt("pc: got 0x%lx, reference 0x%lx", (unsigned long)r.pc, (unsigned long)c.pc); }
	if (check_mem && c.mem) for (auto& w : windows(*c.mem)) {
		const uint8_t *a = arena(m) + w.addr, *b = c.mem->data.data() + w.off;
		if (memcmp(a, b, w.len) == 0) continue;
		size_t i = 0; while (a[i] == b[i]) i++;
		kind = "mem"; return pbt::fmt("memory at 0x%zx: got %02x, reference %02x", w.addr + i, a[i], b[i]);
	}
	return "";
}
// make the reference state equal to the machine's on unspecified parts
inline void adopt(Machine& m, ref::CPU& c)
{
	auto& r = m.cpu.registers();
	for (int i = 0; i < 32; i++) { if (!c.xdef[i]) c.x[i] = r.get(i); memcpy(c.v[i].b, &r.getvr(i), 32); }
	c.clear_marks();
}

// copy unspecified / NaN parts of one machine's state over to the reference and others
inline std::string dis(Machine& m, uint32_t w) { return m.cpu.to_string(loongarch::la_instruction{w}); }
} // vm
#if LA_MASKED_MEMORY_BITS
#include "elfbuild.hpp"
namespace vm {
// memory for the next machines, or own memory
inline thread_local void* donate = nullptr;
inline thread_local size_t donate_size = 0;
inline std::unique_ptr<Machine> bare(uint64_t size, uint64_t ro, uint64_t data)
{
	static std::vector<std::unique_ptr<std::pair<std::vector<uint64_t>, std::string>>> files;
	const std::vector<uint64_t> key{ro, data};
	std::string* file = nullptr;
	for (auto& f : files) if (f->first == key) file = &f->second;
	if (!file) {
		elfimg::Image im;
		im.code = {STOP_WORD};
		im.code_va = ro; im.data_va = data; im.data_size = 16;
		files.push_back(std::make_unique<std::pair<std::vector<uint64_t>, std::string>>(key, elfimg::build(im)));
		file = &files.back()->second;
	}
	auto o = options();
	o->memory_max = size; o->stack_size = 0x1000; o->brk_size = 0x1000;
	o->custom_arena_pointer = donate; o->custom_arena_size = donate ? donate_size : 0;
	auto m = std::make_unique<Machine>(std::string_view(*file), *o);
	m->set_options(o);
	return m;
}
} // vm
#endif
