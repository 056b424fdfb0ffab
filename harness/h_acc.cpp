// The accelerated C library functions: the same observable behaviour as the
// functions they replace, on the guest's memory.
#include "elfimg.hpp"
using namespace pbt;
using namespace vm;
using namespace elfimg;

namespace {
enum Fn { MEMCPY, MEMSET, MEMCMP, MEMMOVE, MEMCHR, STRLEN, STRNLEN, STRCMP, STRNCMP, NFN };
const char* fn_name[] = {"memcpy", "memset", "memcmp", "memmove", "memchr", "strlen", "strnlen", "strcmp", "strncmp"};
const std::vector<const char*> symbols[] = {
	{"__memcpy_lsx", "__memcpy_lasx", "__memcpy_aligned", "__memcpy_unaligned"}, {"__memset_lsx", "__memset_lasx", "__memset_aligned", "__memset_unaligned"},
	{"__memcmp_lsx", "__memcmp_lasx", "__memcmp_aligned"}, {"__memmove_lsx", "__memmove_lasx", "__memmove_aligned", "__memmove_unaligned"},
	{"__memchr_lsx", "__memchr_lasx", "__memchr_aligned"}, {"__strlen_lsx", "__strlen_lasx", "__strlen_aligned"}, {"__strnlen_lsx", "__strnlen_lasx", "__strnlen_aligned"},
	{"__strcmp_lsx", "__strcmp_lasx", "__strcmp_aligned"}, {"__strncmp_lsx", "__strncmp_lasx", "__strncmp_aligned"}};
const int sysnr[] = {508, 509, 510, 511, 507, 500, 501, 502, 503};

struct Expect { bool fault = false; bool sign_only = false; int64_t value = 0; };
struct Mem {
	std::vector<uint8_t> b; uint64_t ro, data, end;
	bool r(uint64_t a) const { return a >= ro && a < end; }
	bool w(uint64_t a) const { return a >= data && a < end; }
	bool rn(uint64_t a, uint64_t n) const { return n == 0 || (r(a) && n <= end - a); }
	bool wn(uint64_t a, uint64_t n) const { return n == 0 || (w(a) && n <= end - a); }
};
// the C functions, one byte at a time
Expect model(Mem& M, Fn f, uint64_t a, uint64_t b, uint64_t c)
{
	Expect e;
	switch (f) {
	case MEMCPY: case MEMMOVE:
		if (!M.wn(a, c) || !M.rn(b, c)) { e.fault = true; break; }
		if (c) memmove(&M.b[a], &M.b[b], c);
		e.value = a; break;
	case MEMSET:
		if (!M.wn(a, c)) { e.fault = true; break; }
		for (uint64_t i = 0; i < c; i++) M.b[a + i] = (uint8_t)b;
		e.value = a; break;
	case MEMCMP:
		if (!M.rn(a, c) || !M.rn(b, c)) { e.fault = true; break; }
		e.sign_only = true;
		for (uint64_t i = 0; i < c; i++) if (M.b[a + i] != M.b[b + i]) { e.value = M.b[a + i] < M.b[b + i] ? -1 : 1; break; }
		break;
	case MEMCHR:
		for (uint64_t i = 0; i < c; i++) {
			if (!M.r(a + i)) { e.fault = true; break; }
			if (M.b[a + i] == (uint8_t)b) { e.value = a + i; break; }
		}
		break;
	case STRLEN: b = ~0ull; [[fallthrough]];
	case STRNLEN: {
		uint64_t i = 0;
		for (; i < b; i++) { if (!M.r(a + i)) { e.fault = true; break; } if (!M.b[a + i]) break; }
		e.value = i; break; }
	case STRCMP: c = ~0ull; [[fallthrough]];
	case STRNCMP:
		e.sign_only = true;
		for (uint64_t i = 0; i < c; i++) {
			if (!M.r(a + i) || !M.r(b + i)) { e.fault = true; break; }
			const int x = M.b[a + i], y = M.b[b + i];
			if (x != y) { e.value = x < y ? -1 : 1; break; }
			if (!x) break;
		}
		break;
	default: break;
	}
	return e;
}
int sign(int64_t v) { return v < 0 ? -1 : v > 0; }
} // namespace

PROP(acc_libc)
{
	Image im;
	im.code_va = 0x10000; im.data_va = 0x11000; im.data_size = 0x9000;
	Asm a(im);
	a.stop();
	uint64_t fn[NFN];
	std::string log;
	for (int i = 0; i < NFN; i++) {
		for (unsigned k = g.draw(2); k > 0; k--) a.nop();
		fn[i] = a.here();
		a.addi_d(A0, 0, -77); a.stop();
		im.syms.push_back({g.pick(symbols[i]), fn[i], 8});
		if (g.chance(20)) { std::vector<uint32_t>& w = im.code; w.pop_back(); w.pop_back(); a.addi_d(A0, 0, -77); a.ret(); }
	}
	uint64_t imm[NFN], reg[NFN];
	for (int i = 0; i < NFN; i++) { imm[i] = a.here(); a.raw(0x002b0000 | sysnr[i]); a.stop(); reg[i] = a.here(); a.syscall(sysnr[i]); a.ret(); }
	const uint64_t exit = a.here(); a.stop();
	for (int i = 0; i < 64; i++) a.raw((uint32_t)g.draw(3) * 0x01010101u);
	auto L = load(im, 0x40000, 0x4000, 0x1000);
	Machine& m = *L;
	m.memory.set_exit_address(exit);
	m.setup_accelerated_syscalls();
	Mem M;
	M.ro = m.memory.rodata_start(); M.data = m.memory.data_start(); M.end = m.memory.arena_size();
	// strings over a small alphabet, some long ones
	uint8_t* mem = vm::arena(m);
	const uint64_t zones[] = {0x11000, 0x14000, M.end - 0x3000};
	for (uint64_t z : zones) {
		const uint64_t len = 0x3000; uint64_t at = 0;
		while (at < len) {
			const unsigned kind = g.weighted({40, 25, 20, 15});
			const uint64_t n = std::min<uint64_t>(len - at, 1 + g.draw(kind == 3 ? 9000 : kind == 2 ? 700 : 60));
			const uint8_t c0 = g.pick<int>({1, 'a', 0x7f, 0x80, 0xff});
			for (uint64_t i = 0; i < n; i++) mem[z + at + i] = kind == 0 ? (uint8_t)(i % 3 ? c0 : 'b') : kind == 1 ? (uint8_t)mix(n, i) : c0;
			at += n;
			if (at < len && g.chance(70)) mem[z + at++] = 0;
			if (n < 20 && g.chance(30)) break;
		}
	}
	if (g.chance(50)) mem[M.end - 1] = g.pick<int>({0, 1, 'a'});
	M.b.assign(mem, mem + M.end);
	auto pointer = [&]() -> uint64_t {
		switch (g.weighted({50, 12, 10, 8, 6, 5, 5, 4})) {
		case 0: return zones[g.draw(2)] + g.draw(0x2fff);
		case 1: return M.end - g.draw(80);
		case 2: return M.end - g.draw(0x2000);
		case 3: return M.data - 8 + g.draw(16);
		case 4: return M.ro - 4 + g.draw(64);
		case 5: return M.end + g.draw(100);
		case 6: return g.u64();
		default: return 0;
		}
	};
	unsigned faults = 0, runs = 0; uint64_t h = 0;
	const unsigned n = 1 + g.draw(12);
	for (unsigned i = 0; i < n; i++) {
		const Fn f = (Fn)g.draw(NFN - 1);
		uint64_t x = pointer(), y = pointer(), z;
		if (g.chance(25)) y = x + g.draw(64) - 32;
		auto length = [&]() -> uint64_t {
			switch (g.weighted({40, 10, 20, 10, 6, 8})) {
			case 0: return g.draw(70);
			case 1: return 0;
			case 2: return g.draw(0x3000);
			case 3: return M.end - x - 2 + g.draw(4);
			case 4: return M.end - y - 2 + g.draw(4);
			default: return g.pick<uint64_t>({~0ull, ~0ull - 1, 1ull << 63, 0x7fffffffull, ~0ull - x, 0 - x, 0 - y});
			}
		};
		z = length();
		// equal contents up to a difference
		if ((f == MEMCMP || f == STRCMP || f == STRNCMP) && g.chance(70) && M.wn(y, 1) && M.rn(x, 1)) {
			const uint64_t k = std::min<uint64_t>({g.chance(30) ? g.draw(0x2800) : g.draw(100), M.end - x, M.end - y});
			std::vector<uint8_t> t(&M.b[x], &M.b[x] + k);
			memcpy(&M.b[y], t.data(), k);
			if (g.chance(60) && k) M.b[y + g.draw(k - 1)] ^= g.pick<int>({1, 0x80, 0xff, 'a'});
			memcpy(mem, M.b.data(), M.end);
			if (g.chance(30)) z = k - 1 + g.draw(2);
		}
		if (f == MEMSET || f == MEMCHR) y = g.chance(70) ? g.pick<int>({0, 1, 'a', 'b', 0x80, 0xff}) | (g.chance(20) ? 0xffffff00ull : 0) : g.u64();
		if (f == STRNLEN) y = z;
		if (f == MEMCPY && M.rn(y, z) && M.wn(x, z) && x < y + z && y < x + z && x != y) { if (y > x) { z = y - x; } else z = x - y; }
		const Expect e = model(M, f, x, y, z);
		const unsigned how = g.draw(3);
		const uint64_t target = how == 0 ? reg[f] : how == 1 ? imm[f] : fn[f];
		const std::string what = fmt("\n  %s(0x%lx, 0x%lx, 0x%lx) %s", fn_name[f], (unsigned long)x, (unsigned long)y, (unsigned long)z, how == 0 ? "by system call" : how == 1 ? "by immediate system call" : "patched");
		log += what; h = mix(mix(h, x + f), y + z);
		for (int r = 22; r < 32; r++) m.cpu.reg(r) = 0x1111 * r;
		bool threw = false; int type = 0; int64_t r = 0; std::string why;
		try { r = m.vmcall<int64_t, 1000>(target, x, y, z); } catch (const MachineException& ex) { threw = true; type = ex.type(); why = ex.what(); }
		if (e.fault) {
			faults++;
			if (!threw) fail("nofault", "returned although the arguments lie outside memory" + log);
			if (type != loongarch::PROTECTION_FAULT) fail("fault:type", "raised " + why + log);
			if (f == MEMCPY || f == MEMMOVE || f == MEMSET) memcpy(mem, M.b.data(), M.end);
		} else {
			runs++;
			if (threw) fail("fault", "raised " + why + log);
			if (e.sign_only ? sign((int)r) != e.value || (int)r != r : r != e.value) fail("result", fmt("returned %ld, should be %ld%s", (long)r, (long)e.value, e.sign_only ? " (sign)" : "") + log);
			for (int s = 22; s < 32; s++) if (m.cpu.reg(s) != 0x1111u * s) fail("saved", "a saved register changed" + log);
			if (m.cpu.pc() != exit + 4) fail("pc", fmt("pc is 0x%lx", (unsigned long)m.cpu.pc()) + log);
		}
		if (memcmp(mem, M.b.data(), M.end)) {
			uint64_t d = 0; while (mem[d] == M.b[d]) d++;
			fail("memory", fmt("memory at 0x%lx holds %02x, should hold %02x", (unsigned long)d, mem[d], M.b[d]) + log);
		}
	}
	if (faults) g.label("~faults"); if (runs) g.label("~runs");
	g.nontrivial(h);
	if (g.want_sample()) g.sample(log.substr(1));
}
