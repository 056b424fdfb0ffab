// Independent reference model of the LoongArch64 user-mode ISA, written from the
// architecture manual (not from the library).  Keyed by the encodings in
// isa_table.inc, which come from binutils.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>

namespace ref {

enum Fmt { AM, B16, B21, B26, BC21, BSD, BSW, CF, SYSFMT, CR, CV, CX, F2, F3, F4, FC, FCMP, FI12, FR, FSEL, FX,
	I12S, I12U, I14S, I16S, I20, JIRL, PRELD, R2, R3, R3SA2, R3SA3, RC, RF,
	RVUI1, RVUI2, RVUI3, RVUI4, RXUI3, UI5, UI6, V2, V3, V4, VI12, VLDI, VR, VRUI1, VRUI2, VRUI3, VRUI4,
	VSI5, VUI1, VUI3, VUI4, VUI5, VUI6, VUI8, VX, X2, X3, X4, XI12, XLDI, XR, XUI3, XUI6, XUI8, XVR, XX };

struct CPU;
enum Outcome { OK, FAULT, STOP, UNKNOWN, UNSPEC };
using ExecFn = std::function<Outcome(CPU&, uint32_t)>;
struct Insn { const char* name; Fmt fmt; uint32_t match, mask; ExecFn exec; };

struct Vec { alignas(32) uint8_t b[32]; };

// Byte-addressed guest memory with a read floor and a write floor.
struct Mem {
	std::vector<uint8_t> data;
	uint64_t rd_lo = 0, wr_lo = 0;
	// addresses modulo a power of two: no permissions, except for the code (see below)
	uint64_t mask = 0, ro_lo = 0, ro_hi = 0;
	// (a large memory is known in parts: `data` holds these windows one after the other)
	struct Window { uint64_t addr, len, off; };
	std::vector<Window> windows;
	void add_window(uint64_t addr, uint64_t len) { windows.push_back({addr, len, data.size()}); data.resize(data.size() + len, 0); }
	uint64_t at(uint64_t a) const
	{
		if (!mask) return a;
		a &= mask;
		for (auto& w : windows) if (a >= w.addr && a - w.addr < w.len) return w.off + (a - w.addr);
		return windows.empty() ? a : ~0ull;
	}
	bool within(uint64_t a, uint64_t n) const
	{
		if (windows.empty()) return inside(a & mask, n);
		const uint64_t f = at(a), l = at(a + n - 1);
		return f != ~0ull && l == f + n - 1;
	}
	bool inside(uint64_t a, uint64_t n) const { return n <= data.size() && a <= data.size() - n; }
	bool readable(uint64_t a, uint64_t n) const { return mask ? within(a, n) : a >= rd_lo && inside(a, n); }
	bool writable(uint64_t a, uint64_t n) const { if (mask) { const uint64_t b = a & mask; return within(a, n) && (b + n <= ro_lo || b >= ro_hi); } return a >= wr_lo && a >= rd_lo && inside(a, n); }
	// entirely outside: must fault.  Partially outside the top: unspecified.
	bool straddles(uint64_t a, uint64_t n) const { return a < data.size() && !(n <= data.size() && a <= data.size() - n); }
};

struct CPU {
	uint64_t x[32] = {};
	Vec v[32] = {};
	uint8_t vdef[32];        // number of low bytes of v[i] that are specified
	bool xdef[32];           // x[i] specified
	uint8_t lane_nan[32];    // 0: exact; 4/8: compare NaN lanes of this size as a class
	uint8_t fcc = 0;
	uint64_t pc = 0;
	bool ll = false; uint64_t ll_addr = 0;
	Mem* mem = nullptr;
	uint64_t fault_addr = 0;
	// last store, for memory comparison
	uint64_t st_addr = 0; uint32_t st_len = 0;
	CPU() { clear_marks(); }
	void clear_marks() { memset(vdef, 32, sizeof vdef); for (auto& d : xdef) d = true; memset(lane_nan, 0, sizeof lane_nan); st_len = 0; }
	void setx(unsigned r, uint64_t val) { if (r) x[r] = val; }
	template <typename T> T lane(unsigned r, unsigned i) const { T t; memcpy(&t, &v[r].b[i * sizeof(T)], sizeof(T)); return t; }
	template <typename T> void setlane(unsigned r, unsigned i, T t) { memcpy(&v[r].b[i * sizeof(T)], &t, sizeof(T)); }
	template <typename T> bool load(uint64_t a, T& t) {
		if (!mem->readable(a, sizeof(T))) { fault_addr = a; return false; }
		memcpy(&t, &mem->data[mem->at(a)], sizeof(T)); return true;
	}
	template <typename T> bool store(uint64_t a, T t) {
		if (!mem->writable(a, sizeof(T))) { fault_addr = a; return false; }
		memcpy(&mem->data[mem->at(a)], &t, sizeof(T)); st_addr = a; st_len = sizeof(T); return true;
	}
	// executes one instruction word at pc and advances pc
	Outcome step(uint32_t w);
};

const std::vector<Insn>& table();
const Insn* find(uint32_t w);       // by encoding
const Insn* by_name(const std::string&);

// field helpers
inline unsigned RD(uint32_t w) { return w & 31; }
inline unsigned RJ(uint32_t w) { return (w >> 5) & 31; }
inline unsigned RK(uint32_t w) { return (w >> 10) & 31; }
inline unsigned RA(uint32_t w) { return (w >> 15) & 31; }
inline int64_t sext(uint64_t v, unsigned bits) { return (int64_t)(v << (64 - bits)) >> (64 - bits); }
inline uint64_t field(uint32_t w, unsigned lo, unsigned n) { return (w >> lo) & ((1ull << n) - 1); }

} // ref
