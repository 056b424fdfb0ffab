// Random C and C++ programs, compiled by the toolchain for the guest and for
// the host: the guest must compute what the host computes, in every mode.
#include "vm.hpp"
#include "isagen.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace pbt;
using namespace vm;

namespace {

struct Ty { const char* name; bool fp; int size; bool sgn; };
const Ty TYS[] = {{"i8", 0, 1, 1}, {"u8", 0, 1, 0}, {"i16", 0, 2, 1}, {"u16", 0, 2, 0}, {"i32", 0, 4, 1}, {"u32", 0, 4, 0}, {"i64", 0, 8, 1}, {"u64", 0, 8, 0}, {"f32", 1, 4, 1}, {"f64", 1, 8, 1}};
constexpr int NT = 10;

const char* PRELUDE = R"(
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned u32;
typedef long i64; typedef unsigned long u64; typedef float f32; typedef double f64; typedef __int128 i128; typedef unsigned __int128 u128;
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#include <pthread.h>
#ifdef __cplusplus
#define EX extern "C"
#define LINK extern "C"
#else
#define EX
#define LINK
#endif
#define NI __attribute__((noinline,noclone))
LINK u64 out[4096]; LINK u64 nout; u64 out[4096]; u64 nout;
static long fuel = 3000;
volatile u64 seed;
static NI void ck(u64 v) { if (nout < 4000) out[nout++] = v; else out[4000] = out[4000] * 31 + v; }
static inline f64 cn(f64 d) { return d != d ? (f64)__builtin_nan("") : d; }
static NI void ckd(f64 d) { u64 v; if (d != d) v = 0x7ff8000000000000ul; else memcpy(&v, &d, 8); ck(v); }
static inline i64 toi(f64 d) { return d > -1e9 && d < 1e9 ? (i64)d : 7; }
static inline u64 div_(u64 a, u64 b) { return b ? a / b : a; }
static inline u64 mod_(u64 a, u64 b) { return b ? a % b : a; }
static inline i64 sdiv_(i64 a, i64 b) { return b == 0 || b == -1 ? a : a / b; }
static inline i64 smod_(i64 a, i64 b) { return b == 0 || b == -1 ? a : a % b; }
static inline i32 sdivw_(i32 a, i32 b) { return b == 0 || b == -1 ? a : a / b; }
static inline i32 smodw_(i32 a, i32 b) { return b == 0 || b == -1 ? a : a % b; }
static inline u32 divw_(u32 a, u32 b) { return b ? a / b : a; }
static inline u32 modw_(u32 a, u32 b) { return b ? a % b : a; }
static inline u64 rotl_(u64 a, unsigned n) { n &= 63; return n ? a << n | a >> (64 - n) : a; }
static inline u32 rotlw_(u32 a, unsigned n) { n &= 31; return n ? a << n | a >> (32 - n) : a; }
static inline int sgn_(int x) { return x < 0 ? -1 : x > 0; }
static inline u64 mulh_(u64 a, u64 b) { return (u64)((u128)a * b >> 64); }
static inline i64 smulh_(i64 a, i64 b) { return (i64)((i128)a * b >> 64); }
static NI u64 d128_(u64 a, u64 b, u64 c) { u128 n = ((u128)a << 64 | b); return c ? (u64)(n / c) ^ (u64)(n % c) : 1; }
static int cmp_(const void* a, const void* b) { i64 x = *(const i64*)a, y = *(const i64*)b; return x < y ? -1 : x > y; }
static NI u64 va_(int n, ...) { va_list ap; va_start(ap, n); u64 s = n; for (int i = 0; i < n; i++) { if (i % 3 == 0) s = s * 33 + va_arg(ap, int); else if (i % 3 == 1) s = s * 33 + va_arg(ap, u64); else s = s * 33 + (u64)toi(va_arg(ap, f64)); } va_end(ap); return s; }
static char sb[512], sc[512], sd[512];
static NI void cks(const char* p, u64 n) { u64 h = 5381; for (u64 i = 0; i < n; i++) h = h * 33 + (u8)p[i]; ck(h); }
static u64 gen_(u64* s) { u64 z = (*s += 0x9e3779b97f4a7c15ul); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ul; z = (z ^ z >> 27) * 0x94d049bb133111ebul; return z ^ z >> 31; }
struct S2 { i32 a; f32 b; }; struct S3 { u64 a; f64 b; }; struct S5 { u64 a, b, c; i16 d; };
static jmp_buf jb;
static NI void jump_(u64 v, int d) { if (d == 0) longjmp(jb, (int)(v % 100) + 1); jump_(v * 3, d - 1); ck(v); }
)";

struct Var { std::string name; int ty; };
struct Arr { std::string name; int ty; int n; };

struct Prog {
	Gen& g;
	std::vector<Arr> arrs;
	std::vector<Var> globals;
	struct Fn { std::string name; int ret; std::vector<int> args; };
	std::vector<Fn> fns;
	std::vector<Var> locals;
	int depth = 0, loops = 0, uniq = 0;
	bool cpp = false, threads = false;
	std::string feat;
	explicit Prog(Gen& g_) : g(g_) {}

	std::string lit(int ty)
	{
		if (TYS[ty].fp) {
			switch (g.draw(5)) {
			case 0: return fmt("%lu.0", (unsigned long)g.draw(20));
			case 1: return fmt("(-%lu.25)", (unsigned long)g.draw(300));
			case 2: return fmt("%lue%d", (unsigned long)g.range(1, 9), int(g.draw(20)) - 10);
			case 3: return "0.1";
			case 4: return ty == 8 ? "3e38f" : "1e300";
			default: return ty == 8 ? "0.5f" : "(-0.0)";   // gcc makes fneg.s, which is not implemented, of -0.0f - x
			}
		}
		uint64_t v = g.chance(50) ? g.draw(40) : g.u64();
		return fmt("(%s)%luul", TYS[ty].name, (unsigned long)v);
	}
	// an expression converted to type ty; pure
	std::string expr(int ty, int d)
	{
		const Ty& t = TYS[ty];
		if (d <= 0 || g.chance(15)) {
			switch (g.draw(3)) {
			case 0: if (!locals.empty()) { auto& v = locals[g.index(locals.size())]; return conv(ty, v.ty, v.name); } return lit(ty);
			case 1: { auto& v = globals[g.index(globals.size())]; return conv(ty, v.ty, v.name); }
			case 2: if (d >= 0) { auto& a = arrs[g.index(arrs.size())]; return conv(ty, a.ty, fmt("%s[%s & %d]", a.name.c_str(), expr(int(g.range(2, 7)), -1).c_str(), a.n - 1)); } return lit(ty);
			default: return lit(ty);
			}
		}
		if (t.fp) {
			const std::string a = expr(ty, d - 1), b = expr(ty, d - 1);
			const char* sf = ty == 8 ? "f" : "";
			switch (g.draw(13)) {
			case 0: case 1: return fmt("(%s + %s)", a.c_str(), b.c_str());
			case 2: return fmt("(%s - %s)", a.c_str(), b.c_str());
			case 3: case 4: return fmt("(%s * %s)", a.c_str(), b.c_str());
			case 5: return fmt("(%s / %s)", a.c_str(), b.c_str());
			case 6: return fmt("(%s)(%s %s %s)", t.name, a.c_str(), g.pick({"<", ">=", "=="}), b.c_str());
			case 7: return fmt("fabs%s(%s)", sf, a.c_str());
			case 8: { const char* f = g.pick({"floor", "ceil", "trunc", "round"}); return fmt("%s%s(%s)", f, sf, a.c_str()); }
			case 9: { const char* f = g.pick({"fmin", "fmax"}); return fmt("((%s)%s%s(%s, %s) + (%s)0.0)", t.name, f, sf, a.c_str(), b.c_str(), t.name); }
			case 10: return fmt("fma%s(%s, %s, %s)", sf, a.c_str(), b.c_str(), expr(ty, d - 2).c_str());
			case 11: return fmt("(%s %s %s ? %s : %s)", a.c_str(), g.pick({"<", "<=", "==", ">", ">=", "!="}), b.c_str(), b.c_str(), expr(ty, d - 2).c_str());
			case 12: return fmt("(0 - %s)", a.c_str());   // fneg.s is not implemented
			default: { int f = int(g.range(4, 7)); return fmt("(%s)%s", t.name, expr(f, d - 1).c_str()); }
			}
		}
		// integers: compute in 32 or 64 bits, signed or not
		const int w = t.size == 8 ? (t.sgn ? 6 : 7) : g.chance(25) ? int(g.range(6, 7)) : t.sgn ? 4 : 5;
		const bool q = w >= 6, s = w == 4 || w == 6;
		std::string a = expr(w, d - 1), b = expr(w, d - 1), r;
		switch (g.draw(25)) {
		case 0: case 1: r = fmt("(%s + %s)", a.c_str(), b.c_str()); break;
		case 2: case 3: r = fmt("(%s - %s)", a.c_str(), b.c_str()); break;
		case 4: case 5: r = q ? fmt("(%s * (%s)(%s ^ 81985529216486895))", a.c_str(), TYS[w].name, b.c_str()) : fmt("(%s * %s)", a.c_str(), b.c_str()); break;   // mulw.d.w is not implemented
		case 6: r = fmt("(%s & %s)", a.c_str(), b.c_str()); break;
		case 7: r = fmt("(%s | %s)", a.c_str(), b.c_str()); break;
		case 8: r = fmt("(%s ^ %s)", a.c_str(), b.c_str()); break;
		case 9: r = fmt("(%s << (%s & %d))", a.c_str(), b.c_str(), q ? 63 : 31); break;
		case 10: case 11: r = fmt("(%s >> (%s & %d))", a.c_str(), b.c_str(), q ? 63 : 31); break;
		case 12: r = fmt("%s(%s, %s)", q ? (s ? "sdiv_" : "div_") : (s ? "sdivw_" : "divw_"), a.c_str(), b.c_str()); break;
		case 13: r = fmt("%s(%s, %s)", q ? (s ? "smod_" : "mod_") : (s ? "smodw_" : "modw_"), a.c_str(), b.c_str()); break;
		case 14: r = fmt("(%s / %lu)", a.c_str(), (unsigned long)g.range(1, 1000)); break;
		case 15: r = fmt("(%s %% %lu)", a.c_str(), (unsigned long)g.range(1, 1000)); break;
		case 16: r = fmt("(%s %s %s)", a.c_str(), g.pick({"<", "<=", "==", ">", ">=", "!="}), b.c_str()); break;
		case 17: r = fmt("(%s %s %s ? %s : %s)", a.c_str(), g.pick({"<", "<=", "==", ">", ">=", "!="}), b.c_str(), expr(w, d - 2).c_str(), expr(w, d - 2).c_str()); break;
		case 18: r = fmt("%s(%s)", g.pick({"~", "-", "!"}), a.c_str()); break;
		case 19: r = fmt("%s(%s, (unsigned)%s)", q ? "rotl_" : "rotlw_", a.c_str(), b.c_str()); break;
		case 20: r = fmt("%s(%s, %s)", s ? "smulh_" : "mulh_", a.c_str(), b.c_str()); break;
		case 21: r = fmt("%s(%s | 1)", q ? g.pick({"__builtin_clzl", "__builtin_ctzl", "__builtin_popcountl", "__builtin_parityl"}) : g.pick({"__builtin_clz", "__builtin_ctz", "__builtin_popcount", "__builtin_parity"}), a.c_str()); break;
		case 22: r = fmt("%s(%s)", q ? "__builtin_bswap64" : g.chance(50) ? "__builtin_bswap32" : "__builtin_bswap16", a.c_str()); break;
		case 23: r = fmt("toi(%s)", expr(int(g.range(8, 9)), d - 1).c_str()); break;
		case 24: { unsigned lo = g.draw(q ? 62 : 30), n = g.range(1, (q ? 63 : 31) - lo); r = fmt("((%s >> %u) & %luul)", a.c_str(), lo, (1ul << n) - 1); break; }
		default: r = fmt("d128_(%s, %s, %s)", a.c_str(), b.c_str(), expr(7, d - 2).c_str()); break;
		}
		return fmt("(%s)%s", t.name, r.c_str());
	}
	std::string conv(int to, int from, const std::string& e)
	{
		if (to == from) return e;
		if (!TYS[to].fp && TYS[from].fp) return fmt("(%s)toi(%s)", TYS[to].name, e.c_str());
		return fmt("(%s)%s", TYS[to].name, e.c_str());
	}
	std::string place(int& ty)
	{
		switch (g.draw(2)) {
		case 0: if (!locals.empty()) { auto& v = locals[g.index(locals.size())]; ty = v.ty; return v.name; } [[fallthrough]];
		case 1: { auto& v = globals[g.index(globals.size())]; ty = v.ty; return v.name; }
		default: { auto& a = arrs[g.index(arrs.size())]; ty = a.ty; return fmt("%s[%s & %d]", a.name.c_str(), expr(int(g.range(2, 7)), 1).c_str(), a.n - 1); }
		}
	}
	std::string call(const Fn& f)
	{
		std::string s = f.name + "(";
		for (size_t i = 0; i < f.args.size(); i++) s += (i ? ", " : "") + expr(f.args[i], 1);
		return s + ")";
	}
	std::string ckx(int ty, const std::string& e) { return TYS[ty].fp ? fmt("ckd(%s);", e.c_str()) : fmt("ck((u64)%s);", e.c_str()); }
	std::string block(int n) { std::string s = "{\n"; depth++; const size_t nl = locals.size(); for (int i = 0; i < n; i++) s += stmt(); locals.resize(nl); depth--; return s + "}\n"; }

	std::string vecloop()
	{
		// loops over arrays, which the compiler may vectorise
		auto same = [&](int ty) { std::vector<const Arr*> r; for (auto& a : arrs) if (a.ty == ty) r.push_back(&a); return r; };
		const Arr& a = arrs[g.index(arrs.size())];
		auto c = same(a.ty);
		const Arr& b = *c[g.index(c.size())]; const Arr& d = *c[g.index(c.size())];
		const int n = std::min(a.n, std::min(b.n, d.n));
		const int lo = int(g.draw(3)), hi = n - int(g.draw(3));
		const char* T = TYS[a.ty].name;
		const char* A = a.name.c_str(), *B = b.name.c_str(), *D = d.name.c_str();
		if (TYS[a.ty].fp) switch (g.draw(5)) {
			case 0: return fmt("for (int i = %d; i < %d; i++) %s[i] = %s[i] %s %s[i];\n", lo, hi, A, B, g.pick({"+", "-", "*", "/"}), D);
			case 1: return fmt("for (int i = %d; i < %d; i++) %s[i] = %s[i] > %s[i] ? %s[i] : %s;\n", lo, hi, A, B, D, B, lit(a.ty).c_str());
			case 2: return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)fabs(%s[i]);\n", lo, hi, A, T, B);
			case 3: return fmt("{ %s s = 0; for (int i = %d; i < %d; i++) s += %s[i] * %s[i]; ckd(s); }\n", T, lo, hi, B, D);
			case 4: { const Arr& e = arrs[g.index(arrs.size())]; return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)%s[i];\n", lo, std::min(hi, e.n), A, T, e.name.c_str()); }
			default: return fmt("for (int i = %d; i < %d; i++) %s[i] = fma(%s[i], %s[i], %s[i]);\n", lo, hi, A, B, D, A);
		}
		const int bits = TYS[a.ty].size * 8;
		switch (g.draw(12)) {
		case 0: return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)(%s[i] %s %s[i]);\n", lo, hi, A, T, B, g.pick({"+", "-", "*", "&", "|", "^"}), D);
		case 1: return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)(%s[i] %s %lu);\n", lo, hi, A, T, B, g.pick({"<<", ">>"}), (unsigned long)g.draw(bits - 1));
		case 2: return fmt("for (int i = %d; i < %d; i++) %s[i] = %s[i] %s %s[i] ? %s[i] : %s[i];\n", lo, hi, A, B, g.pick({"<", ">", "==", "<="}), D, B, D);
		case 3: return fmt("{ %s s = 0; for (int i = %d; i < %d; i++) s = (%s)(s %s %s[i]); ck((u64)s); }\n", T, lo, hi, T, g.pick({"+", "^", "|", "-", "*"}), B);
		case 4: return fmt("{ i64 s = 0; for (int i = %d; i < %d; i++) s += (i64)(%s[i] * %s[i]); ck((u64)s); }\n", lo, hi, B, D);
		case 5: return fmt("{ %s s = %s[0]; for (int i = %d; i < %d; i++) s = s %s %s[i] ? s : %s[i]; ck((u64)s); }\n", T, B, lo, hi, g.pick({"<", ">"}), B, B);
		case 6: { const Arr& e = arrs[g.index(arrs.size())]; return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)%s;\n", lo, std::min(hi, e.n), A, T, TYS[e.ty].fp ? fmt("toi(%s[i])", e.name.c_str()).c_str() : fmt("%s[i]", e.name.c_str()).c_str()); }
		case 7: return fmt("for (int i = 0; i < %d; i++) %s[i] = %s[%d - i];\n", n, A, B, n - 1);
		case 8: return fmt("for (int i = 0; i < %d; i++) %s[i] = (%s)(%s[2 * i] + %s[2 * i + 1]);\n", std::min(a.n, b.n) / 2, A, T, B, B);
		case 9: return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)(%s[i] < 0 ? -%s[i] : %s[i]);\n", lo, hi, A, T, B, B, B);
		case 10: return fmt("for (int i = %d; i < %d; i++) %s[i] = (%s)(((u64)%s[i] + (u64)%s[i] + 1) >> 1);\n", lo, hi, A, T, B, D);
		case 11: return fmt("for (int i = %d; i < %d; i++) { int x = %s[i] + %s[i]; %s[i] = (%s)(x > 100 ? 100 : x < -100 ? -100 : x); }\n", lo, hi, B, D, A, T);
		default: return fmt("for (int i = %d; i < %d; i++) if (%s[i] & 1) %s[i] = (%s)(%s[i] / %lu);\n", lo, hi, B, A, T, D, (unsigned long)g.range(2, 20));
		}
	}
	std::string libc()
	{
		const unsigned o = g.draw(200), p = g.draw(200), n = g.draw(g.chance(50) ? 40 : 250);
		switch (g.draw(17)) {
		case 0: feat += " memcpy"; return fmt("memcpy(sb + %u, sc + %u, %u); cks(sb, 512);\n", o, p, n);
		case 1: feat += " memmove"; return fmt("memmove(sb + %u, sb + %u, %u); cks(sb, 512);\n", o, p, n);
		case 2: feat += " memset"; return fmt("memset(sc + %u, (int)%s, %u); cks(sc, 512);\n", o, expr(4, 1).c_str(), n);
		case 3: feat += " memcmp"; return fmt("ck((u64)sgn_(memcmp(sb + %u, sc + %u, %u)));\n", o, p, n);
		case 4: feat += " strings"; return fmt("sd[0] = 0; sb[511] = sc[511] = 0; ck(strlen(sb + %u)); ck((u64)sgn_(strcmp(sb + %u, sc + %u))); ck((u64)sgn_(strncmp(sb + %u, sb + %u, %u)));\n", o, p, o, o, p, n);
		case 5: { feat += " strchr"; return fmt("sb[511] = 0; { const char* q = strchr(sb + %u, %u); ck(q ? q - sb : -1); q = (const char*)memchr(sb + %u, %u, %u); ck(q ? q - sb : -1); q = strrchr(sb, %u); ck(q ? q - sb : -1); }\n", o, unsigned(g.range(1, 255)), p, unsigned(g.draw(255)), n, unsigned(g.range(1, 255))); }
		case 6: {
			feat += " printf";
			std::string f, a;
			for (uint64_t k = g.range(1, 4), i = 0; i < k; i++) {
				f += g.pick({" ", "x", "", ":"});
				f += "%"; if (g.chance(40)) f += g.pick({"-", "0", "+", " ", "#"});
				if (g.chance(40)) f += fmt("%u", unsigned(g.range(1, 30)));
				const bool prec = g.chance(40); if (prec) f += fmt(".%u", unsigned(g.draw(20)));
				switch (g.draw(4)) {
				case 0: f += g.pick({"d", "i"}); a += ", " + expr(4, 1); break;
				case 1: f += g.pick({"lu", "lx", "lo"}); a += ", " + expr(7, 1); break;
				case 2: f += g.pick({"g", "e", "f", "a"}); a += ", cn(" + expr(9, 2) + ")"; break;
				case 3: f += "s"; a += g.pick({", \"\"", ", \"hello\"", ", sd"}); break;
				default: f += "x"; a += ", " + expr(5, 1); break;
				}
			}
			return fmt("ck((u64)snprintf(sc, %u, \"%s\"%s)); cks(sc, strlen(sc));\n", unsigned(g.range(1, 400)), f.c_str(), a.c_str());
		}
		case 7: feat += " strto"; return fmt("snprintf(sd, 100, \"%%%s\", %s); ck(strtoul(sd, 0, %u)); ck((u64)strtol(sd, 0, 0)); ckd(strtod(sd, 0));\n", g.pick({"ld", "lx", "#lx", "lo", "lu"}), expr(7, 1).c_str(), unsigned(g.pick({0, 10, 16, 36})));
		case 8: feat += " strtod"; return fmt("snprintf(sd, 400, \"%%.%u%s\", cn(%s)); ckd(strtod(sd, 0));\n", unsigned(g.draw(20)), g.pick({"g", "e", "a"}), expr(9, 2).c_str());
		case 9: { feat += " qsort"; int k = int(g.range(1, 60)); return fmt("if (fuel > 0) { fuel -= 10; i64 t[%d]; u64 s = %s; for (int i = 0; i < %d; i++) t[i] = (i64)gen_(&s) >> %u; qsort(t, %d, 8, cmp_); for (int i = 0; i < %d; i++) ck((u64)t[i]); i64 key = t[%u]; i64* f = (i64*)bsearch(&key, t, %d, 8, cmp_); ck(f ? (u64)*f : 1); }\n", k, expr(7, 1).c_str(), k, unsigned(g.draw(60)), k, k, unsigned(g.draw(k - 1)), k); }
		case 10: {
			feat += " malloc";
			return fmt("if (fuel > 0) { fuel -= 100; void* p[8] = {0}; u64 z[8] = {0}, s = %s; for (int i = 0; i < %u; i++) { unsigned k = gen_(&s) & 7; u64 n = gen_(&s) %% %u; switch (gen_(&s) & 3) { case 0: free(p[k]); p[k] = malloc(n + 1); z[k] = n + 1; memset(p[k], (int)i, z[k]); break;"
				" case 1: free(p[k]); p[k] = 0; z[k] = 0; break; case 2: { u64 o = z[k]; p[k] = realloc(p[k], n + 1); if (n + 1 > o) memset((char*)p[k] + o, 0x11, n + 1 - o); z[k] = n + 1; cks((char*)p[k], z[k]); break; }"
				" default: free(p[k]); p[k] = calloc(n + 1, 1); z[k] = n + 1; cks((char*)p[k], z[k]); } } for (int k = 0; k < 8; k++) { if (p[k]) cks((char*)p[k], z[k]); free(p[k]); } }\n", expr(7, 1).c_str(), unsigned(g.range(1, 40)), unsigned(g.pick({50, 500, 5000, 20000})));
		}
		case 11: feat += " setjmp"; return fmt("{ volatile int c = 0; int r = setjmp(jb); ck(r); if (c < %u) { c = c + 1; jump_(%s, c %% 5); } ck(c); }\n", unsigned(g.range(1, 5)), expr(7, 1).c_str());
		case 12: { feat += " varargs"; unsigned k = unsigned(g.range(1, 14)); std::string s = fmt("ck(va_(%u", k); for (unsigned i = 0; i < k; i++) s += ", " + expr(i % 3 == 0 ? 4 : i % 3 == 1 ? 7 : 9, 1); return s + "));\n"; }
		case 13: {
			feat += " atomics";
			std::vector<const Var*> iv; for (auto& v : globals) if (!TYS[v.ty].fp) iv.push_back(&v);
			if (iv.empty()) return "";
			const Var& v = *iv[g.index(iv.size())];
			switch (g.draw(2)) {
			case 0: return fmt("ck((u64)__atomic_%s(&%s, %s, %s));\n", g.pick({"fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_nand", "add_fetch", "exchange_n"}), v.name.c_str(), expr(v.ty, 2).c_str(), g.pick({"5", "0", "2", "3"}));
			case 1: return fmt("{ %s e = %s; ck(__atomic_compare_exchange_n(&%s, &e, %s, 0, 5, 5)); ck((u64)e); }\n", TYS[v.ty].name, g.chance(60) ? v.name.c_str() : expr(v.ty, 1).c_str(), v.name.c_str(), expr(v.ty, 1).c_str());
			default: return fmt("ck(__atomic_test_and_set(&%s, 5)); __atomic_clear(&%s, 5);\n", v.name.c_str(), v.name.c_str());
			}
		}
		case 14: feat += " libm"; return fmt("{ int e; f64 x = %s; if (x == x && x < 1e300 && x > -1e300) { ckd(frexp(x, &e)); ck((u64)e); } f64 y = %s; if (y != 0) ckd(fmod(x, y)); f64 ip; f64 fr = modf(x, &ip); ckd(ip); ckd(fr); ck((u64)__builtin_isinf(x)); }\n", expr(9, 2).c_str(), expr(9, 1).c_str());
		case 15: {
			feat += " structs";
			return fmt("{ struct S2 a = {%s, %s}; struct S3 b = {%s, %s}; struct S5 c = {%s, %s, %s, %s}; c = s5_(c, b, a); a = s2_(a, c); b = s3_(b, a); ck(c.a); ck(c.b); ck(c.c); ck(c.d); ck(a.a); ckd(a.b); ck(b.a); ckd(b.b); }\n",
				expr(4, 1).c_str(), expr(8, 1).c_str(), expr(7, 1).c_str(), expr(9, 1).c_str(), expr(7, 1).c_str(), expr(7, 1).c_str(), expr(7, 1).c_str(), expr(2, 1).c_str());
		}
		case 16:
			if (!threads) return "";
			feat += " pthreads";
			return fmt("if (fuel > 0) { fuel -= 300; pthread_t t[%u]; int n = %u; for (int i = 0; i < n; i++) if (pthread_create(&t[i], 0, thr_, (void*)(long)(i * %lu + 1))) ck(999); for (int i = 0; i < n; i++) { void* r = 0; pthread_join(t[i], &r); ck((u64)r); } ck(tsum); ck(tat); ck(tls_); }\n", 6u, unsigned(g.range(1, 6)), (unsigned long)g.range(1, 50));
		default:
			if (!cpp) return fmt("ck(rec_(%lu, %s));\n", (unsigned long)g.draw(12), expr(7, 1).c_str());
			feat += " exceptions";
			return fmt("try { ck(thrower(%lu, %s)); } catch (long v) { ck(v); ck(1); } catch (const Err& e) { ck(e.v()); } { Base* b = %s ? (Base*)new Der(%s) : new Base(%s); ck(b->v()); delete b; ck(live); }\n", (unsigned long)g.draw(9), expr(7, 1).c_str(), expr(4, 1).c_str(), expr(7, 1).c_str(), expr(7, 1).c_str());
		}
	}
	std::string stmt()
	{
		switch (g.draw(depth > 3 ? 5 : 15)) {
		case 0: case 1: case 2: { int ty; std::string p = place(ty); return fmt("%s = %s;\n", p.c_str(), expr(ty, 3).c_str()); }
		case 3: { int ty; std::string p = place(ty); return ckx(ty, p) + "\n"; }
		case 4: { int ty = int(g.draw(NT - 1)); std::string n = fmt("l%d", uniq++); std::string s = fmt("%s %s = %s;\n", TYS[ty].name, n.c_str(), expr(ty, 2).c_str()); locals.push_back({n, ty}); return s; }
		case 5: return vecloop();
		case 6: return libc();
		case 7: return vecloop();
		case 8: return fmt("if (%s) ", expr(4, 2).c_str()) + block(int(g.range(1, 3))) + (g.chance(50) ? "else " + block(int(g.range(1, 2))) : "");
		case 9: case 10: {
			if (loops >= 2) return "";
			loops++; int v = uniq++;
			std::string s = fmt("for (%s q%d = 0; q%d < %lu; q%d++) { if (fuel-- < 0) break;\n", g.pick({"int", "u64", "u8", "i16"}), v, v, (unsigned long)g.range(1, 12), v);
			locals.push_back({fmt("(0+q%d)", v), 4});
			// the counter may be read only: used through an expression
			const Var ro = locals.back(); locals.pop_back(); (void)ro;
			s += block(int(g.range(1, 3))) + "}\n"; loops--; return s;
		}
		case 11: {
			std::string s = fmt("switch (%s & 7) {\n", expr(4, 2).c_str());
			for (uint64_t n = g.range(1, 6), i = 0; i < n; i++) s += fmt("case %lu: ", (unsigned long)i) + block(1) + (g.chance(70) ? "break;\n" : "\n");
			return s + "default: " + block(1) + "}\n";
		}
		case 12: case 13: {
			if (fns.empty()) return "";
			const Fn& f = fns[g.index(fns.size())];
			int ty; std::string p = place(ty);
			return fmt("{ %s r = %s; %s = %s; }\n", TYS[f.ret].name, call(f).c_str(), p.c_str(), conv(ty, f.ret, "r").c_str());
		}
		case 14: return libc();
		default: {
			// dispatch through a table of functions with the same shape
			return fmt("ck(tab_[%s & 3](%s));\n", expr(5, 1).c_str(), expr(7, 2).c_str());
		}
		}
	}
	std::string generate()
	{
		std::string s = PRELUDE;
		cpp = g.chance(25);
		threads = g.chance(35);
		const int na = int(g.range(2, 8));
		for (int i = 0; i < na; i++) {
			const int ty = int(g.draw(NT - 1)), n = 16 << g.draw(2);
			arrs.push_back({fmt("a%d", i), ty, n});
			s += fmt("static %s a%d[%d] __attribute__((aligned(%d)));\n", TYS[ty].name, i, n, int(g.pick({8, 16, 32, 64})));
		}
		for (int i = 0; i < 6; i++) { const int ty = int(g.draw(NT - 1)); globals.push_back({fmt("g%d", i), ty}); s += fmt("%s%s g%d;\n", g.chance(50) ? "static " : "", TYS[ty].name, i); }
		s += "static NI struct S5 s5_(struct S5 c, struct S3 b, struct S2 a) { c.a += b.a; c.b ^= (u64)a.a; c.c = c.c * 3 + (u64)toi(b.b); c.d = (i16)(c.d - a.a); return c; }\n"
		     "static NI struct S2 s2_(struct S2 a, struct S5 c) { a.a += (i32)c.d; a.b = a.b * 0.5f + (f32)(i32)c.a; return a; }\n"
		     "static NI struct S3 s3_(struct S3 b, struct S2 a) { b.a -= (u64)a.a; b.b = b.b + a.b; return b; }\n"
		     "static NI u64 rec_(u64 n, u64 v) { if (fuel-- < 0 || n == 0) return v; u64 a = rec_(n - 1, v * 3 + n); return a ^ rec_(n / 2, v + 1); }\n"
		     "static NI u64 t0_(u64 v) { return v + 1; } static NI u64 t1_(u64 v) { return v * 7; } static NI u64 t2_(u64 v) { return ~v; } static NI u64 t3_(u64 v) { return rotl_(v, 9); }\n"
		     "static u64 (*const tab_[4])(u64) = {t0_, t1_, t2_, t3_};\n";
		if (threads) s += "static pthread_mutex_t mx_ = PTHREAD_MUTEX_INITIALIZER; static u64 tsum, tat; static __thread u64 tls_ = 77;\n"
			"static void* thr_(void* p) { u64 v = (u64)p; for (int i = 0; i < 30; i++) { pthread_mutex_lock(&mx_); tsum += v * i; pthread_mutex_unlock(&mx_); tls_ += v; __atomic_fetch_add(&tat, v, 5); } return (void*)(tls_ * v); }\n";
		if (cpp) s += "static long live; struct Base { u64 x; Base(u64 x_) : x(x_) { live++; } virtual u64 v() const { return x; } virtual ~Base() { live--; } }; struct Der : Base { Der(u64 x_) : Base(x_ * 2) {} u64 v() const override { return x ^ 5; } };\n"
			"struct Err : Der { Err(u64 v) : Der(v) {} }; struct Guard { u64 k; ~Guard() { ck(k); } };\n"
			"static NI u64 thrower(u64 n, u64 v) { Guard gd{n}; if (n == 0) { if (v % 3 == 0) throw (long)v; if (v % 3 == 1) throw Err(v); return v; } try { return thrower(n - 1, v + n) + 1; } catch (long x) { if (n % 2) throw; return (u64)x + thrower(n - 1, v * 3 + 2); } }\n";
		const int nf = int(g.range(1, 4));
		for (int i = 0; i < nf; i++) {
			Fn f; f.name = fmt("f%d", i); f.ret = int(g.draw(NT - 1));
			locals.clear();
			std::string args;
			for (uint64_t k = g.draw(11), j = 0; j < k; j++) { int ty = int(g.draw(NT - 1)); f.args.push_back(ty); locals.push_back({fmt("p%lu", (unsigned long)j), ty}); args += fmt("%s%s p%lu", j ? ", " : "", TYS[ty].name, (unsigned long)j); }
			s += fmt("static %s%s f%d(%s)\n{ if (fuel-- < 0) return 0;\n", g.chance(70) ? "NI " : "", TYS[f.ret].name, i, args.empty() ? "void" : args.c_str());
			depth = 0; loops = 0;
			for (uint64_t k = g.range(1, 8), j = 0; j < k; j++) s += stmt();
			s += fmt("return %s;\n}\n", expr(f.ret, 2).c_str());
			fns.push_back(f);
		}
		locals.clear(); depth = 0; loops = 0;
		s += fmt("static NI __attribute__((optimize(\"no-tree-vectorize\"))) void init_(void)\n{ seed = %luul; u64 s = seed; for (int i = 0; i < 512; i++) { sb[i] = (char)(gen_(&s) %% 5 + 'a'); sc[i] = (char)(gen_(&s) %% 3 + 'a'); }\n", (unsigned long)g.raw64());
		for (auto& a : arrs) s += fmt("for (int i = 0; i < %d; i++) %s[i] = (%s)%s;\n", a.n, a.name.c_str(), TYS[a.ty].name, TYS[a.ty].fp ? "((f64)(i64)gen_(&s) / 4294967296.0)" : "(gen_(&s) >> (gen_(&s) & 60))");
		for (auto& v : globals) s += fmt("%s = (%s)(gen_(&s) >> %lu);\n", v.name.c_str(), TYS[v.ty].name, (unsigned long)g.draw(63));
		s += "}\nint main(void)\n{ init_();\n";
		for (uint64_t k = g.range(2, 14), j = 0; j < k; j++) s += stmt();
		for (auto& a : arrs) s += fmt("for (int i = 0; i < %d; i++) %s\n", a.n, ckx(a.ty, a.name + "[i]").c_str());
		for (auto& v : globals) s += ckx(v.ty, v.name) + "\n";
		s += "if (getenv(\"HOST_OUT\")) { FILE* f = fopen(getenv(\"HOST_OUT\"), \"wb\"); fwrite(&nout, 8, 1, f); fwrite(out, 1, sizeof out, f); fclose(f); }\n";
		s += "return (int)(nout & 127);\n}\n";
		return s;
	}
};

std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); }

struct Scratch {
	std::string dir;
	Scratch() { char t[] = "/tmp/pbt_cprogXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(3); } dir = t; }
	~Scratch() { if (getenv("PBT_KEEP")) return; for (const char* f : {"p.c", "p.cpp", "host", "guest", "out", "log"}) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); }
};
int sh(const std::string& c) { int r = system(c.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 128; }

struct Result { bool threw = false, ended = false; int type = -1; uint64_t data = 0; std::string what; uint64_t n = 0; std::vector<uint64_t> out; int code = 0; uint64_t icount = 0; };

bool known_instruction(uint64_t w)
{
	for (auto& i : ref::table()) if ((w & i.mask) == i.match) return isagen::implemented().count(i.name);
	return false;
}

Result run_guest(const std::string& elf, int mode, uint64_t slice)
{
	auto o = vm::options();
	o->memory_max = 4095ull << 20; o->stack_size = 1 << 20; o->brk_size = 4 << 20;
	Machine m{std::string_view(elf), *o};
	m.set_options(o);
	m.setup_linux({"prog"}, {"LC_ALL=C"});
	Machine::setup_linux_syscalls();
	m.setup_posix_threads();
	Result r;
	constexpr uint64_t LIMIT = 1'000'000'000;
	try {
		if (mode == 0) m.simulate(LIMIT, 0);
		else if (mode == 1) m.cpu.simulate_inaccurate(m.cpu.registers().pc);
		else if (mode == 2) do { m.simulate(m.instruction_counter() + slice, m.instruction_counter()); } while (!m.stopped() && m.instruction_counter() < LIMIT);
		else { m.set_max_instructions(LIMIT); uint64_t n = 0; while (!m.stopped() && n++ < LIMIT) m.cpu.step_one(); }
	} catch (const MachineException& e) { r.threw = true; r.type = e.type(); r.data = e.data(); r.what = fmt("%s (data 0x%lx) at pc 0x%lx", e.what(), (unsigned long)e.data(), (unsigned long)m.cpu.registers().pc); return r; }
	r.icount = m.instruction_counter();
	r.ended = mode == 1 || m.stopped();
	const uint64_t pn = m.address_of("nout"), po = m.address_of("out");
	r.n = m.memory.read<uint64_t>(pn);
	r.out.resize(4096);
	m.memory.copy_from_guest(r.out.data(), po, 4096 * 8);
	r.code = int(m.return_value<int>());
	return r;
}
}

PROP(c_programs)
{
	Scratch sc;
	Prog P(g);
	const std::string src = P.generate();
	const std::string opt = g.pick({"-O2", "-O0", "-O1", "-O3", "-Os", "-O3 -mlsx", "-O3 -mlasx", "-O2 -mlasx -funroll-loops", "-O1 -mlsx", "-O3 -mlasx -funroll-loops -ftree-loop-vectorize"});
	const uint64_t slice = g.pick({1, 2, 7, 100, 1000, 33333});
	const std::string file = sc.dir + (P.cpp ? "/p.cpp" : "/p.c");
	{ std::ofstream f(file); f << src; }
	const std::string common = "-w -fwrapv -fno-strict-aliasing -ffp-contract=off -fno-math-errno -fsigned-char -fno-delete-null-pointer-checks ";
	const std::string log = " >" + sc.dir + "/log 2>&1";
	const std::string L = P.cpp ? "g++" : "gcc";
	if (sh(L + " -O1 " + common + "-o " + sc.dir + "/host " + file + " -lm -pthread" + log)) { fprintf(stderr, "host compiler: %s\n%s\n", slurp(sc.dir + "/log").substr(0, 2000).c_str(), src.c_str()); _exit(3); }
	int hrc = 0;
	std::string used = opt;
	bool again = false;
retry:
	if (sh("loongarch64-linux-gnu-" + L + "-14 -static " + used + " " + common + "-Wl,-Ttext-segment=0x200000 -o " + sc.dir + "/guest " + file + " -lm -pthread" + log)) { fprintf(stderr, "guest compiler: %s\n", slurp(sc.dir + "/log").substr(0, 2000).c_str()); _exit(3); }
	if (!again) hrc = sh("HOST_OUT=" + sc.dir + "/out timeout 20 " + sc.dir + "/host" + log);
	const std::string ho = slurp(sc.dir + "/out");
	if (ho.size() != 8 + 4096 * 8) { g.label("host program did not finish"); fprintf(stderr, "host program: status %d\n%s\n", hrc, src.c_str()); return; }
	uint64_t hn; memcpy(&hn, ho.data(), 8);
	std::vector<uint64_t> hv(4096); memcpy(hv.data(), &ho[8], 4096 * 8);
	const std::string elf = slurp(sc.dir + "/guest");
	uint64_t icount = 0;
	static const char* const names[] = {"fast", "inacc", "slices", "step"};
	for (int mode = 0; mode < 4; mode++) {
		if (mode == 3 && icount > 3'000'000) { g.label("~too long to single-step"); continue; }
		if (mode == 2 && slice < 50 && icount > 20'000'000) continue;
		Result r = run_guest(elf, mode, slice);
		const std::string where = fmt("%s, %s%s: ", names[mode], used.c_str(), P.cpp ? ", C++" : "");
		if (r.threw && r.type == loongarch::UNIMPLEMENTED_INSTRUCTION && !known_instruction(r.data)) {
			if (const char* p = getenv("PBT_UNIMPL")) if (FILE* f = fopen(p, "a")) { fprintf(f, "%s%s\n", where.c_str(), r.what.c_str()); fclose(f); }
			if (again) { g.label("needs an unimplemented instruction"); return; }
			again = true; used = "-O2 -mno-lsx -fno-tree-vectorize"; goto retry;
		}
		if (r.threw) fail(fmt("%s:exception:%d", names[mode], r.type), where + r.what + "\n" + src.substr(strlen(PRELUDE)));
		if (!r.ended) fail(fmt("%s:endless", names[mode]), where + "the program did not end within 10^9 instructions\n" + src.substr(strlen(PRELUDE)));
		if (mode == 0) icount = r.icount;
		size_t k = 0;
		while (k < 4096 && r.out[k] == hv[k]) k++;
		if (k < 4096 || r.n != hn) fail(fmt("%s:result", names[mode]), where + fmt("result %zu of %lu (host %lu) is 0x%lx, the host computes 0x%lx", k, (unsigned long)r.n, (unsigned long)hn, (unsigned long)(k < 4096 ? r.out[k] : 0), (unsigned long)(k < 4096 ? hv[k] : 0)) + "\n" + src.substr(strlen(PRELUDE)));
		if (r.code != hrc) fail(fmt("%s:code", names[mode]), where + fmt("exit status %d, host %d", r.code, hrc) + "\n" + src.substr(strlen(PRELUDE)));
	}
	g.label(used.c_str());
	if (P.cpp) g.label("~C++");
	{ std::istringstream f(P.feat); std::string x; while (f >> x) g.label(("~" + x).c_str()); }
	if (hn > 20) g.nontrivial(hash_bytes(src.data(), src.size()));
	if (g.want_sample()) g.sample(fmt("%s%s program of %zu bytes, %lu instructions, %lu results equal to the host's in fast, uncounted, sliced (%lu) and single-step execution; uses%s", used.c_str(), P.cpp ? " C++" : " C", src.size() - strlen(PRELUDE), (unsigned long)icount, (unsigned long)hn, (unsigned long)slice, P.feat.c_str()));
}
