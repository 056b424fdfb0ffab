// Generators for single instructions and CPU states.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <cmath>
#include <map>
#include <set>

enum Cls { CL_INT, CL_MEM, CL_BRANCH, CL_FP, CL_LSX, CL_LASX };

namespace isagen {
using namespace ref;
using pbt::Gen;

inline bool name_in(const Insn& i, std::initializer_list<const char*> l) { for (auto s : l) if (!strcmp(i.name, s)) return true; return false; }
inline bool starts(const Insn& i, const char* p) { return strncmp(i.name, p, strlen(p)) == 0; }
inline bool is_branch(const Insn& i) { return i.fmt == B16 || i.fmt == B21 || i.fmt == B26 || i.fmt == BC21 || i.fmt == JIRL; }
inline bool is_mem(const Insn& i)
{
	if (i.fmt == AM || i.fmt == FI12 || i.fmt == FX || i.fmt == VI12 || i.fmt == VX || i.fmt == XI12 || i.fmt == XX || i.fmt == I14S) return true;
	return (i.fmt == I12S || i.fmt == R3) && (starts(i, "ld") || starts(i, "st"));
}
inline bool is_load(const Insn& i) { return is_mem(i) && (i.fmt == I12S || i.fmt == R3 || i.fmt == I14S) && starts(i, "ld"); }
inline bool is_lasx(const Insn& i) { return i.name[0] == 'x' && i.name[1] == 'v'; }
inline bool is_lsx(const Insn& i) { return i.name[0] == 'v'; }
inline bool is_fp(const Insn& i)
{
	switch (i.fmt) { case F2: case F3: case F4: case FCMP: case FSEL: case FC: case CF: case FR: case RF: case RC: case CR: return true; default: return false; }
}

inline const std::set<std::string>& implemented()
{
	static const std::set<std::string> s = {
#include "implemented.inc"
	};
	return s;
}

inline const std::vector<const Insn*>& pool(Cls c)
{
	static std::map<int, std::vector<const Insn*>> m;
	if (m.empty()) {
		for (auto& i : table()) {
			if (!implemented().count(i.name)) continue;
			if (name_in(i, {"syscall", "break", "rdtime.d", "cpucfg"})) continue;
			Cls k = CL_INT;
			if (is_branch(i)) k = CL_BRANCH;
			else if (is_mem(i) || i.fmt == PRELD) k = CL_MEM;
			else if (is_lasx(i)) k = CL_LASX;
			else if (is_lsx(i)) k = CL_LSX;
			else if (is_fp(i)) k = CL_FP;
			m[k].push_back(&i);
			if (k == CL_MEM && is_lasx(i)) m[CL_LASX].push_back(&i);
			if (k == CL_MEM && is_lsx(i)) m[CL_LSX].push_back(&i);
		}
	}
	return m[c];
}

inline double fp_pool(Gen& g)
{
	static const double p[] = {0.0, -0.0, 1.0, -1.0, 1.5, -2.5, 0.1, 3.0, 1e308, -1e308, 4.9e-324, 2.2250738585072014e-308, 1.0 / 3, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
		4294967296.0, 9223372036854775807.0, -9223372036854775808.0, 1e19, 0.5, -0.5, 0.49999999999999994, 1.0000000000000002, 123456789.0, 1.0 + 1.0 / (1 << 27)};
	switch (g.draw(3)) {
	case 0: return p[g.draw(sizeof p / sizeof *p - 1)];
	case 1: { uint64_t v = g.draw(~0ull); double d; memcpy(&d, &v, 8); return d; }
	case 2: { switch (g.draw(3)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; default: return -1.75; } }
	default: return (double)(int64_t)(g.draw(2000000)) / 997.0 - 1000.0;
	}
}
// a value halfway between two neighbouring floats, or barely off it, where rounding twice shows
inline double near_midpoint(Gen& g)
{
	uint32_t fb = (uint32_t)g.draw(0xffffffff);
	if (g.chance(15)) fb &= 0x80ffffff;   // subnormal floats and the smallest normal ones
	if (((fb >> 23) & 0xff) == 0xff) fb ^= 1u << 30;
	float f; memcpy(&f, &fb, 4);
	const uint32_t nb = fb + 1; float n; memcpy(&n, &nb, 4);
	double d = ((double)f + (double)n) / 2;
	if (!(d - d == 0)) d = f;
	uint64_t b; memcpy(&b, &d, 8); b += g.draw(2) - 1; memcpy(&d, &b, 8);
	return d;
}
// an integer near the midpoint of two neighbouring floats (or doubles)
inline uint64_t int_near_midpoint(Gen& g, bool dbl)
{
	const int mb = dbl ? 53 : 24;
	const int sh = 1 + (int)g.draw(63 - mb - 1);
	uint64_t m = (1ull << (mb - 1)) | (g.draw(~0ull) & ((1ull << (mb - 1)) - 1));
	uint64_t v = (m << sh) + (1ull << (sh - 1));
	switch (g.draw(3)) { case 0: v += 1; break; case 1: v -= 1; break; case 2: v += g.draw(63) - 31; break; default: break; }
	v &= ~(1ull << 63);
	return g.chance(40) ? -v : v;
}
inline void fill_vec(Gen& g, ref::Vec& v, bool prefer_fp)
{
	size_t style = prefer_fp ? (g.chance(50) ? 3 : 4) : g.weighted({3, 2, 2, 1, 1, 1, 1});
	uint64_t s = 0;
	switch (style) {
	case 0: for (int i = 0; i < 4; i++) { s = g.draw(~0ull); memcpy(v.b + i * 8, &s, 8); } break;
	case 1: for (int i = 0; i < 4; i++) { s = g.u64(); memcpy(v.b + i * 8, &s, 8); } break;
	case 2: { static const uint8_t e[] = {0, 1, 0x7f, 0x80, 0xff, 0x81, 0xfe, 0x10}; for (int i = 0; i < 4; i++) { uint64_t r = g.draw(~0ull); for (int k = 0; k < 8; k++) v.b[i * 8 + k] = e[(r >> (k * 3)) & 7]; } } break;
	case 3: for (int i = 0; i < 4; i++) { double d = fp_pool(g); memcpy(v.b + i * 8, &d, 8); } break;
	case 4: for (int i = 0; i < 4; i++) { float f[2] = {(float)fp_pool(g), (float)fp_pool(g)}; memcpy(v.b + i * 8, f, 8); } break;
	case 5: memset(v.b, 0, 32); break;
	case 6: memset(v.b, 0xff, 32); break;
	}
}

inline uint64_t bgmix(uint64_t& s) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// Deterministic background content derived from one draw
inline void background(Gen& g, ref::CPU& c, Mem& mem)
{
	uint64_t seed = g.draw(0xffff);
	uint64_t s = seed * 77 + 5;
	for (int i = 1; i < 32; i++) c.x[i] = seed ? bgmix(s) : 0;
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) { uint64_t r = seed ? bgmix(s) : 0; memcpy(c.v[i].b + 8 * k, &r, 8); }
	c.fcc = seed ? bgmix(s) & 0xff : 0;
	// memory: the data area only (the caller writes code)
	static std::vector<uint64_t> pat;
	if (pat.empty()) { uint64_t t = 99; for (int i = 0; i < 8192; i++) pat.push_back(bgmix(t)); }
	for (size_t a = mem.wr_lo; a + 8 <= mem.data.size(); a += 8) { uint64_t r = pat[(a / 8 + seed) & 8191]; memcpy(&mem.data[a], &r, 8); }
}

inline unsigned access_size(const Insn& i)
{
	if (i.fmt == XI12 || i.fmt == XX) return 32;
	if (i.fmt == VI12 || i.fmt == VX) return 16;
	const std::string n = i.name;
	auto ends = [&](const char* e) { size_t l = strlen(e); return n.size() >= l && n.compare(n.size() - l, l, e) == 0; };
	if (i.fmt == AM) return ends(".d") || ends(".du") ? 8 : 4;
	if (ends(".b") || ends(".bu")) return 1;
	if (ends(".h") || ends(".hu")) return 2;
	if (ends(".w") || ends(".wu") || ends(".s")) return 4;
	return 8;
}

inline uint64_t pick_address(Gen& g, const Mem& mem, unsigned size, bool faults)
{
	size_t k = faults ? g.weighted({70, 8, 6, 6, 5, 5}) : 0;
	const uint64_t end = mem.data.size();
	switch (k) {
	case 0: { uint64_t a = mem.wr_lo + g.draw(end - mem.wr_lo - 32); if (g.chance(50)) a &= ~uint64_t(size - 1); return a; }
	case 1: return mem.rd_lo + g.draw(mem.wr_lo - mem.rd_lo - 1);
	case 2: return g.draw(mem.rd_lo - 1);
	case 3: return end + g.draw(0x4000);
	case 4: return g.u64();
	default: switch (g.draw(5)) { case 0: return mem.wr_lo; case 1: return mem.wr_lo - 1; case 2: return end - size; case 3: return mem.rd_lo; case 4: return mem.rd_lo - 1; default: return ~0ull - g.draw(64); }
	}
}

// Choose operand bits for `in` and set up the registers it reads.
inline uint32_t operands(Gen& g, const Insn& in, ref::CPU& c, bool faults)
{
	const uint32_t free_bits = ~in.mask;
	uint32_t bits = (uint32_t)g.draw(0xffffffff);
	auto put = [&](unsigned lo, unsigned n, uint64_t v) { const uint32_t m = ((n >= 32 ? 0xffffffffu : ((1u << n) - 1)) << lo) & free_bits; bits = (bits & ~m) | ((uint32_t)(v << lo) & m); };
	// immediate edges: every free bit above the two low register fields
	if (g.chance(25)) {
		uint32_t hi = free_bits & 0x03fffc00u;
		switch (g.draw(3)) {
		case 0: bits &= ~hi; break;
		case 1: bits |= hi; break;
		case 2: { bits &= ~hi; if (hi) bits |= 1u << (31 - __builtin_clz(hi)); break; }
		default: { bits |= hi; if (hi) bits &= ~(1u << (31 - __builtin_clz(hi))); break; }
		}
	}
	// register aliasing
	switch (g.weighted({60, 8, 8, 8, 8, 8})) {
	case 1: put(5, 5, bits & 31); break;                 // rj = rd
	case 2: put(10, 5, (bits >> 5) & 31); break;         // rk = rj
	case 3: put(0, 5, (bits >> 10) & 31); break;         // rd = rk
	case 4: put(0, 5, 0); break;                         // rd = 0
	case 5: put(5, 5, 0); break;                         // rj = 0
	}
	uint32_t w = in.match | (bits & free_bits);
	auto X = [&](unsigned r, uint64_t v) { if (r) c.x[r] = v; };

	const bool vec = is_lasx(in) || is_lsx(in);
	const bool fpf = is_fp(in);
	// general registers that are read
	if (!is_mem(in)) {
		X(RJ(w), g.u64());
		if (in.fmt == R3 || in.fmt == R3SA2 || in.fmt == R3SA3 || in.fmt == BSD || in.fmt == BSW || in.fmt == B16 || vec) { X(RK(w), g.u64()); X(RD(w), g.chance(50) ? g.u64() : c.x[RD(w)]); }
		if (in.fmt == R3 && g.chance(12)) X(RK(w), c.x[RJ(w)] + g.draw(2) - 1);   // neighbouring operands
	}
	if (vec || fpf || in.fmt == FI12 || in.fmt == FX) {
		const bool fp = fpf || strstr(in.name, "vf") != nullptr;
		for (unsigned r : {RJ(w), RK(w), RA(w), RD(w)}) if (!(is_mem(in) && r != RD(w))) fill_vec(g, c.v[r], fp && g.chance(85));
		if (fpf) {
			// the scalar lane gets a value of the operand type
			const bool s = strstr(in.name, ".s") != nullptr && strcmp(in.name, "fcvt.s.d") != 0;
			for (unsigned r : {RJ(w), RK(w), RA(w)}) {
				if (strncmp(in.name, "ffint", 5) == 0) { uint64_t v = g.u64(); memcpy(c.v[r].b, &v, 8); continue; }
				if (strncmp(in.name, "ftint", 5) == 0) { const bool srcs = in.name[strlen(in.name) - 1] == 's'; double d = fp_pool(g); if (srcs) { float f = (float)d; memcpy(c.v[r].b, &f, 4); } else memcpy(c.v[r].b, &d, 8); continue; }
				double d = fp_pool(g);
				const bool src_s = strcmp(in.name, "fcvt.d.s") == 0 || s;
				if (src_s) { float f = (float)d; memcpy(c.v[r].b, &f, 4); } else memcpy(c.v[r].b, &d, 8);
			}
		}
		if (fpf && g.chance(40)) {
			auto getd = [&](unsigned r) { double d; memcpy(&d, c.v[r].b, 8); return d; };
			auto putd = [&](unsigned r, double d) { memcpy(c.v[r].b, &d, 8); };
			auto getf = [&](unsigned r) { float d; memcpy(&d, c.v[r].b, 4); return d; };
			auto putf = [&](unsigned r, float d) { memcpy(c.v[r].b, &d, 4); };
			const bool single = strstr(in.name, ".s") != nullptr;
			if (starts(in, "ffint")) {
				uint64_t v = int_near_midpoint(g, in.name[6] == 'd');
				if (strstr(in.name, ".w")) v = (uint32_t)((1u << 24 | (uint32_t)(v & 0xffffff)) << (1 + g.draw(5))) + (uint32_t)g.draw(2) - 1;
				memcpy(c.v[RJ(w)].b, &v, 8);
			} else if (!strcmp(in.name, "fcvt.s.d")) putd(RJ(w), near_midpoint(g));
			else if (starts(in, "ftint")) {
				// around whole numbers and the limits of the target
				const double base = g.pick({0.0, 1.0, 2147483648.0, 4294967296.0, 9223372036854775808.0, 4503599627370496.0}) + (g.chance(50) ? 0.0 : (double)g.draw(1000));
				double d = g.chance(50) ? base : -base; const int dir = (int)g.draw(2);
				if (strcmp(in.name + strlen(in.name) - 2, ".s") == 0) { float f = (float)d; putf(RJ(w), dir == 1 ? f : dir ? nextafterf(f, INFINITY) : nextafterf(f, -INFINITY)); }
				else putd(RJ(w), dir == 1 ? d : dir ? nextafter(d, INFINITY) : nextafter(d, -INFINITY));
			} else if (in.fmt == F4) {
				// a sum that cancels, or lies near a rounding boundary
				if (single) { putf(RA(w), -getf(RJ(w)) * getf(RK(w))); if (g.chance(30)) putf(RA(w), -getf(RA(w))); if (g.chance(30)) putf(RA(w), (float)ldexp(getf(RA(w)), (int)g.draw(60) - 30)); }
				else { putd(RA(w), -getd(RJ(w)) * getd(RK(w))); if (g.chance(30)) putd(RA(w), -getd(RA(w))); if (g.chance(30)) putd(RA(w), ldexp(getd(RA(w)), (int)g.draw(120) - 60)); }
			} else if (in.fmt == F3 || in.fmt == FCMP) {
				// equal, opposite or neighbouring operands
				const int how = (int)g.draw(3);
				if (single) { float f = getf(RJ(w)); putf(RK(w), how == 0 ? f : how == 1 ? -f : nextafterf(f, how == 2 ? INFINITY : -INFINITY)); }
				else { double f = getd(RJ(w)); putd(RK(w), how == 0 ? f : how == 1 ? -f : nextafter(f, how == 2 ? INFINITY : -INFINITY)); }
			}
		}
		if (vec && !is_mem(in) && g.chance(20)) {
			// lanes in which both operands agree
			const unsigned ls = 1u << g.draw(3); const uint32_t which = (uint32_t)g.draw(~0u);
			for (unsigned k = 0; k < 32; k++) if (which >> (k / ls) & 1) c.v[RK(w)].b[k] = c.v[RJ(w)].b[k];
			if (fp && ls >= 4 && g.chance(50)) for (unsigned k = ls - 1; k < 32; k += ls) if (which >> (k / ls) & 1) c.v[RK(w)].b[k] ^= 0x80;
		}
		if (starts(in, "vshuf.b")) for (int i = 0; i < 16; i++) c.v[RA(w)].b[i] &= 31;
		if (starts(in, "vseqi") && g.chance(60)) { int8_t im = (int8_t)sext(field(w, 10, 5), 5); for (int k = 0; k < 32; k++) if (g.chance(50)) c.v[RJ(w)].b[k] = (uint8_t)im; }
		if ((starts(in, "vseq.") || starts(in, "xvseq.")) && g.chance(70)) { c.v[RK(w)] = c.v[RJ(w)]; c.v[RK(w)].b[g.draw(31)] ^= 1 << g.draw(7); }
		if ((starts(in, "vset") || starts(in, "xvset")) && g.chance(50)) for (int k = 0; k < 32; k++) if (g.chance(95)) c.v[RJ(w)].b[k] = starts(in, "vsetall") ? 1 : 0;
	}
	switch (in.fmt) {
	case BSD: { uint64_t m = field(w, 16, 6), l = field(w, 10, 6); if (m < l) std::swap(m, l); if (g.chance(15)) { m = 63; if (g.chance(50)) l = 0; } w = (w & ~0x3ffc00u) | (uint32_t)(m << 16) | (uint32_t)(l << 10); break; }
	case BSW: { uint64_t m = field(w, 16, 5), l = field(w, 10, 5); if (m < l) std::swap(m, l); if (g.chance(15)) { m = 31; if (g.chance(50)) l = 0; } w = (w & ~0x1f7c00u) | (uint32_t)(m << 16) | (uint32_t)(l << 10); break; }
	case R3:
		if (starts(in, "div") || starts(in, "mod")) {
			const std::string n = in.name;
			if (n.find(".w") != std::string::npos) { X(RJ(w), (uint64_t)(int64_t)(int32_t)c.x[RJ(w)]); X(RK(w), (uint64_t)(int64_t)(int32_t)c.x[RK(w)]); }
			if (c.x[RK(w)] == 0 && g.chance(80)) X(RK(w), 1 + g.draw(100));
			if (g.chance(10)) { X(RJ(w), n.find(".w") != std::string::npos ? 0xffffffff80000000ull : 1ull << 63); X(RK(w), ~0ull); }
			break;
		}
		break;
	case SYSFMT: w = in.match | (uint32_t)g.draw(0x7fff); break;
	default: break;
	}
	// memory operands
	if (is_mem(in)) {
		const unsigned sz = access_size(in);
		uint64_t a = pick_address(g, *c.mem, sz, faults);
		if (in.fmt == AM || starts(in, "ll.") || starts(in, "sc.")) a &= ~uint64_t(sz - 1);
		int64_t off = 0; bool indexed = false;
		if (in.fmt == I12S || in.fmt == FI12 || in.fmt == VI12 || in.fmt == XI12) off = sext(field(w, 10, 12), 12);
		else if (in.fmt == I14S) off = sext(field(w, 10, 14), 14) * 4;
		else if (in.fmt == R3 || in.fmt == FX || in.fmt == VX || in.fmt == XX) indexed = true;
		// value to store
		X(RD(w), g.u64());
		if (in.fmt == AM) X(RK(w), g.u64());
		if (!indexed) X(RJ(w), a - off);
		else {
			const uint64_t idx = g.chance(30) ? 0 : g.chance(50) ? g.draw(0x3000) : g.u64();
			if (RJ(w) == RK(w)) { a &= ~1ull; X(RJ(w), a / 2); }
			else if (RJ(w) == 0) X(RK(w), a);
			else if (RK(w) == 0) X(RJ(w), a);
			else { X(RK(w), idx); X(RJ(w), a - idx); }
		}
		if (starts(in, "sc.")) { c.ll = g.chance(70); c.ll_addr = a; }
	}
	// branches: aim inside the first 4 KB of the code area
	if (is_branch(in)) {
		const int64_t cur = (int64_t)((c.pc - 0x4000) / 4);
		const int64_t tgt = (int64_t)g.draw(1023);
		const int64_t off = tgt - cur;
		if (in.fmt == B16) {
			w = (w & ~0x3fffc00u) | (uint32_t)((off & 0xffff) << 10);
			if (g.chance(40) && RD(w) != 0) X(RD(w), c.x[RJ(w)]);
			if (g.chance(20)) X(RJ(w), c.x[RD(w)] + (g.chance(50) ? 1 : -1));
		} else if (in.fmt == B21 || in.fmt == BC21) {
			w = (w & ~0x3fffc1fu) | (uint32_t)((off & 0xffff) << 10) | (uint32_t)((off >> 16) & 0x1f);
			if (in.fmt == B21 && g.chance(40)) X(RJ(w), 0);
			if (in.fmt == B21 && g.chance(15)) X(RJ(w), 1ull << g.draw(63));
		} else if (in.fmt == B26) {
			w = (w & ~0x3ffffffu) | (uint32_t)((off & 0xffff) << 10) | (uint32_t)((off >> 16) & 0x3ff);
		} else if (in.fmt == JIRL) {
			const int64_t im = sext(field(w, 10, 16), 16) * 4;
			X(RJ(w), (uint64_t)(0x4000 + tgt * 4 - im));
		}
	}
	return w;
}
} // isagen
