#include "ref.hpp"
#include <cfenv>

namespace ref {
namespace {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
using i128 = __int128; using u128 = unsigned __int128;

u64 sx32(u64 v) { return (u64)(i64)(i32)(u32)v; }

std::unordered_map<std::string, ExecFn>& reg()
{
	static std::unordered_map<std::string, ExecFn> m;
	return m;
}
void def(const std::string& names, ExecFn f)
{
	size_t i = 0;
	while (i < names.size()) {
		size_t j = names.find(' ', i);
		if (j == std::string::npos) j = names.size();
		if (j > i) reg()[names.substr(i, j - i)] = f;
		i = j + 1;
	}
}

// ---- integer ----
using Fn3 = u64 (*)(u64, u64);
void r3(const char* n, Fn3 f) { def(n, [f](CPU& c, u32 w) { c.setx(RD(w), f(c.x[RJ(w)], c.x[RK(w)])); return OK; }); }
using F2f = u64 (*)(u64);
void r2(const char* n, F2f f) { def(n, [f](CPU& c, u32 w) { c.setx(RD(w), f(c.x[RJ(w)])); return OK; }); }
template <typename T> u64 count_lead(u64 v, bool ones) {
	unsigned n = 0;
	for (int i = sizeof(T) * 8 - 1; i >= 0; i--) { if (((v >> i) & 1) != (ones ? 1u : 0u)) break; n++; }
	return n;
}
template <typename T> u64 count_trail(u64 v, bool ones) {
	unsigned n = 0;
	for (unsigned i = 0; i < sizeof(T) * 8; i++) { if (((v >> i) & 1) != (ones ? 1u : 0u)) break; n++; }
	return n;
}
u64 permute_bytes(u64 v, const int (&src)[8]) {
	u64 r = 0;
	for (int i = 0; i < 8; i++) r |= ((v >> (8 * src[i])) & 0xff) << (8 * i);
	return r;
}
u64 revbits_groups(u64 v, int group) {
	u64 r = 0;
	for (int i = 0; i < 64; i++) if ((v >> i) & 1) r |= 1ull << ((i / group) * group + (group - 1 - i % group));
	return r;
}

void integer()
{
	r3("add.w", [](u64 a, u64 b) { return sx32(a + b); });
	r3("add.d", [](u64 a, u64 b) { return a + b; });
	r3("sub.w", [](u64 a, u64 b) { return sx32(a - b); });
	r3("sub.d", [](u64 a, u64 b) { return a - b; });
	r3("slt", [](u64 a, u64 b) -> u64 { return (i64)a < (i64)b; });
	r3("sltu", [](u64 a, u64 b) -> u64 { return a < b; });
	r3("and", [](u64 a, u64 b) { return a & b; });
	r3("or", [](u64 a, u64 b) { return a | b; });
	r3("xor", [](u64 a, u64 b) { return a ^ b; });
	r3("nor", [](u64 a, u64 b) { return ~(a | b); });
	r3("orn", [](u64 a, u64 b) { return a | ~b; });
	r3("andn", [](u64 a, u64 b) { return a & ~b; });
	r3("maskeqz", [](u64 a, u64 b) -> u64 { return b == 0 ? 0 : a; });
	r3("masknez", [](u64 a, u64 b) -> u64 { return b != 0 ? 0 : a; });
	r3("sll.w", [](u64 a, u64 b) { return sx32((u64)(u32)a << (b & 31)); });
	r3("srl.w", [](u64 a, u64 b) { return sx32((u64)(u32)a >> (b & 31)); });
	r3("sra.w", [](u64 a, u64 b) { return (u64)((i64)(i32)(u32)a >> (b & 31)); });
	r3("sll.d", [](u64 a, u64 b) { return a << (b & 63); });
	r3("srl.d", [](u64 a, u64 b) { return a >> (b & 63); });
	r3("sra.d", [](u64 a, u64 b) { return (u64)((i64)a >> (b & 63)); });
	r3("rotr.w", [](u64 a, u64 b) { u64 t = (u32)a; t |= t << 32; return sx32(t >> (b & 31)); });
	r3("rotr.d", [](u64 a, u64 b) { u128 t = a; t |= t << 64; return (u64)(t >> (b & 63)); });
	r3("mul.w", [](u64 a, u64 b) { return sx32((u64)((i64)(i32)a * (i64)(i32)b)); });
	r3("mulh.w", [](u64 a, u64 b) { return (u64)(((i64)(i32)a * (i64)(i32)b) >> 32); });
	r3("mulh.wu", [](u64 a, u64 b) { return sx32(((u64)(u32)a * (u64)(u32)b) >> 32); });
	r3("mul.d", [](u64 a, u64 b) { return (u64)((u128)a * b); });
	r3("mulh.d", [](u64 a, u64 b) { return (u64)(((i128)(i64)a * (i128)(i64)b) >> 64); });
	r3("mulh.du", [](u64 a, u64 b) { return (u64)(((u128)a * (u128)b) >> 64); });
	// Division: zero divisor leaves rd unspecified; 32-bit forms require sign-extended inputs
	auto divop = [](const char* n, bool w32, Fn3 f) {
		def(n, [w32, f](CPU& c, u32 w) {
			const u64 a = c.x[RJ(w)], b = c.x[RK(w)];
			const bool unspec = (w32 ? (u32)b == 0 : b == 0) || (w32 && (sx32(a) != a || sx32(b) != b));
			if (unspec) { if (RD(w)) c.xdef[RD(w)] = false; return OK; }
			c.setx(RD(w), f(a, b));
			return OK;
		});
	};
	divop("div.w", true, [](u64 a, u64 b) { return sx32((u64)((i64)(i32)a / (i64)(i32)b)); });
	divop("mod.w", true, [](u64 a, u64 b) { return sx32((u64)((i64)(i32)a % (i64)(i32)b)); });
	divop("div.wu", true, [](u64 a, u64 b) { return sx32((u32)a / (u32)b); });
	divop("mod.wu", true, [](u64 a, u64 b) { return sx32((u32)a % (u32)b); });
	divop("div.d", false, [](u64 a, u64 b) { return (u64)((i128)(i64)a / (i128)(i64)b); });
	divop("mod.d", false, [](u64 a, u64 b) { return (u64)((i128)(i64)a % (i128)(i64)b); });
	divop("div.du", false, [](u64 a, u64 b) { return a / b; });
	divop("mod.du", false, [](u64 a, u64 b) { return a % b; });

	r2("clo.w", [](u64 a) { return count_lead<u32>(a, true); });
	r2("clz.w", [](u64 a) { return count_lead<u32>(a, false); });
	r2("cto.w", [](u64 a) { return count_trail<u32>(a, true); });
	r2("ctz.w", [](u64 a) { return count_trail<u32>(a, false); });
	r2("clo.d", [](u64 a) { return count_lead<u64>(a, true); });
	r2("clz.d", [](u64 a) { return count_lead<u64>(a, false); });
	r2("cto.d", [](u64 a) { return count_trail<u64>(a, true); });
	r2("ctz.d", [](u64 a) { return count_trail<u64>(a, false); });
	r2("revb.2h", [](u64 a) { return sx32(permute_bytes(a, {1, 0, 3, 2, 5, 4, 7, 6})); });
	r2("revb.4h", [](u64 a) { return permute_bytes(a, {1, 0, 3, 2, 5, 4, 7, 6}); });
	r2("revb.2w", [](u64 a) { return permute_bytes(a, {3, 2, 1, 0, 7, 6, 5, 4}); });
	r2("revb.d", [](u64 a) { return permute_bytes(a, {7, 6, 5, 4, 3, 2, 1, 0}); });
	r2("revh.2w", [](u64 a) { return permute_bytes(a, {2, 3, 0, 1, 6, 7, 4, 5}); });
	r2("revh.d", [](u64 a) { return permute_bytes(a, {6, 7, 4, 5, 2, 3, 0, 1}); });
	r2("bitrev.4b", [](u64 a) { return sx32(revbits_groups(a, 8)); });
	r2("bitrev.8b", [](u64 a) { return revbits_groups(a, 8); });
	r2("bitrev.w", [](u64 a) { return sx32(revbits_groups(a, 32)); });
	r2("bitrev.d", [](u64 a) { return revbits_groups(a, 64); });
	r2("ext.w.b", [](u64 a) { return (u64)(i64)(i8)a; });
	r2("ext.w.h", [](u64 a) { return (u64)(i64)(i16)a; });
	def("rdtime.d", [](CPU& c, u32 w) { // rd: counter, rj: counter id
		if (RD(w)) c.xdef[RD(w)] = false;
		if (RJ(w)) c.xdef[RJ(w)] = false;
		return OK;
	});
	def("cpucfg", [](CPU& c, u32 w) { if (RD(w)) c.xdef[RD(w)] = false; return OK; });

	def("alsl.w", [](CPU& c, u32 w) { c.setx(RD(w), sx32((c.x[RJ(w)] << (field(w, 15, 2) + 1)) + c.x[RK(w)])); return OK; });
	def("alsl.wu", [](CPU& c, u32 w) { c.setx(RD(w), (u32)((c.x[RJ(w)] << (field(w, 15, 2) + 1)) + c.x[RK(w)])); return OK; });
	def("alsl.d", [](CPU& c, u32 w) { c.setx(RD(w), (c.x[RJ(w)] << (field(w, 15, 2) + 1)) + c.x[RK(w)]); return OK; });
	def("bytepick.d", [](CPU& c, u32 w) {
		const unsigned sa = field(w, 15, 3) * 8;
		u128 cat = ((u128)c.x[RK(w)] << 64) | c.x[RJ(w)];
		c.setx(RD(w), (u64)(cat >> (64 - sa)));
		return OK;
	});
	auto i12 = [](const char* n, bool sign, Fn3 f) {
		def(n, [sign, f](CPU& c, u32 w) {
			u64 imm = field(w, 10, 12);
			if (sign) imm = (u64)sext(imm, 12);
			c.setx(RD(w), f(c.x[RJ(w)], imm));
			return OK;
		});
	};
	i12("addi.w", true, [](u64 a, u64 b) { return sx32(a + b); });
	i12("addi.d", true, [](u64 a, u64 b) { return a + b; });
	i12("slti", true, [](u64 a, u64 b) -> u64 { return (i64)a < (i64)b; });
	i12("sltui", true, [](u64 a, u64 b) -> u64 { return a < b; });
	i12("lu52i.d", true, [](u64 a, u64 b) -> u64 { return (b << 52) | (a & (u64)0xfffffffffffffull); });
	i12("andi", false, [](u64 a, u64 b) { return a & b; });
	i12("ori", false, [](u64 a, u64 b) { return a | b; });
	i12("xori", false, [](u64 a, u64 b) { return a ^ b; });
	def("addu16i.d", [](CPU& c, u32 w) { c.setx(RD(w), c.x[RJ(w)] + ((u64)sext(field(w, 10, 16), 16) << 16)); return OK; });
	auto shi = [](const char* n, unsigned bits, Fn3 f) {
		def(n, [bits, f](CPU& c, u32 w) { c.setx(RD(w), f(c.x[RJ(w)], field(w, 10, bits))); return OK; });
	};
	shi("slli.w", 5, [](u64 a, u64 s) { return sx32(a << s); });
	shi("srli.w", 5, [](u64 a, u64 s) { return sx32((u64)(u32)a >> s); });
	shi("srai.w", 5, [](u64 a, u64 s) { return (u64)((i64)(i32)a >> s); });
	shi("rotri.w", 5, [](u64 a, u64 s) { u64 t = (u32)a; t |= t << 32; return sx32(t >> s); });
	shi("slli.d", 6, [](u64 a, u64 s) { return a << s; });
	shi("srli.d", 6, [](u64 a, u64 s) { return a >> s; });
	shi("srai.d", 6, [](u64 a, u64 s) { return (u64)((i64)a >> s); });
	shi("rotri.d", 6, [](u64 a, u64 s) { u128 t = a; t |= t << 64; return (u64)(t >> s); });
	def("bstrins.w", [](CPU& c, u32 w) {
		const unsigned l = field(w, 10, 5), m = field(w, 16, 5);
		if (m < l) return UNSPEC;
		u64 mask = ((2ull << (m - l)) - 1) << l;
		c.setx(RD(w), sx32((c.x[RD(w)] & ~mask) | ((c.x[RJ(w)] << l) & mask)));
		return OK;
	});
	def("bstrpick.w", [](CPU& c, u32 w) {
		const unsigned l = field(w, 10, 5), m = field(w, 16, 5);
		if (m < l) return UNSPEC;
		u64 mask = (2ull << (m - l)) - 1;
		c.setx(RD(w), sx32(((u64)(u32)c.x[RJ(w)] >> l) & mask));
		return OK;
	});
	def("bstrins.d", [](CPU& c, u32 w) {
		const unsigned l = field(w, 10, 6), m = field(w, 16, 6);
		if (m < l) return UNSPEC;
		u64 r = c.x[RD(w)];
		for (unsigned i = l; i <= m; i++) { r &= ~(1ull << i); r |= ((c.x[RJ(w)] >> (i - l)) & 1) << i; }
		c.setx(RD(w), r);
		return OK;
	});
	def("bstrpick.d", [](CPU& c, u32 w) {
		const unsigned l = field(w, 10, 6), m = field(w, 16, 6);
		if (m < l) return UNSPEC;
		u64 r = 0;
		for (unsigned i = l; i <= m; i++) r |= ((c.x[RJ(w)] >> i) & 1) << (i - l);
		c.setx(RD(w), r);
		return OK;
	});
	def("lu12i.w", [](CPU& c, u32 w) { c.setx(RD(w), (u64)sext(field(w, 5, 20) << 12, 32)); return OK; });
	def("lu32i.d", [](CPU& c, u32 w) { c.setx(RD(w), ((u64)sext(field(w, 5, 20), 20) << 32) | (u32)c.x[RD(w)]); return OK; });
	def("pcaddi", [](CPU& c, u32 w) { c.setx(RD(w), c.pc + ((u64)sext(field(w, 5, 20), 20) << 2)); return OK; });
	def("pcalau12i", [](CPU& c, u32 w) { c.setx(RD(w), (c.pc + ((u64)sext(field(w, 5, 20), 20) << 12)) & ~0xfffull); return OK; });
	def("pcaddu12i", [](CPU& c, u32 w) { c.setx(RD(w), c.pc + ((u64)sext(field(w, 5, 20), 20) << 12)); return OK; });
	def("pcaddu18i", [](CPU& c, u32 w) { c.setx(RD(w), c.pc + ((u64)sext(field(w, 5, 20), 20) << 18)); return OK; });
	def("dbar ibar preld", [](CPU&, u32) { return OK; });
}

// ---- control flow (sets pc to target-4, step() adds 4) ----
void control()
{
	auto b16 = [](const char* n, bool (*f)(u64, u64)) {
		def(n, [f](CPU& c, u32 w) {
			if (f(c.x[RJ(w)], c.x[RD(w)])) c.pc += (u64)sext(field(w, 10, 16), 16) * 4 - 4;
			return OK;
		});
	};
	b16("beq", [](u64 a, u64 b) { return a == b; });
	b16("bne", [](u64 a, u64 b) { return a != b; });
	b16("blt", [](u64 a, u64 b) { return (i64)a < (i64)b; });
	b16("bge", [](u64 a, u64 b) { return (i64)a >= (i64)b; });
	b16("bltu", [](u64 a, u64 b) { return a < b; });
	b16("bgeu", [](u64 a, u64 b) { return a >= b; });
	auto off21 = [](u32 w) { return (u64)sext(field(w, 10, 16) | (field(w, 0, 5) << 16), 21) * 4; };
	auto off26 = [](u32 w) { return (u64)sext(field(w, 10, 16) | (field(w, 0, 10) << 16), 26) * 4; };
	def("beqz", [off21](CPU& c, u32 w) { if (c.x[RJ(w)] == 0) c.pc += off21(w) - 4; return OK; });
	def("bnez", [off21](CPU& c, u32 w) { if (c.x[RJ(w)] != 0) c.pc += off21(w) - 4; return OK; });
	def("bceqz", [off21](CPU& c, u32 w) { if (!((c.fcc >> field(w, 5, 3)) & 1)) c.pc += off21(w) - 4; return OK; });
	def("bcnez", [off21](CPU& c, u32 w) { if ((c.fcc >> field(w, 5, 3)) & 1) c.pc += off21(w) - 4; return OK; });
	def("b", [off26](CPU& c, u32 w) { c.pc += off26(w) - 4; return OK; });
	def("bl", [off26](CPU& c, u32 w) { c.x[1] = c.pc + 4; c.pc += off26(w) - 4; return OK; });
	def("jirl", [](CPU& c, u32 w) {
		const u64 t = c.x[RJ(w)] + (u64)sext(field(w, 10, 16), 16) * 4;
		c.setx(RD(w), c.pc + 4);
		c.pc = t - 4;
		return OK;
	});
	def("break syscall", [](CPU&, u32) { return UNKNOWN; });
}

// ---- memory ----
template <typename T, typename R> ExecFn ld_i(unsigned lo, unsigned bits, unsigned scale) {
	return [=](CPU& c, u32 w) {
		T t;
		if (!c.load<T>(c.x[RJ(w)] + ((u64)sext(field(w, lo, bits), bits) << scale), t)) return FAULT;
		c.setx(RD(w), (u64)(R)t);
		return OK;
	};
}
template <typename T> ExecFn st_i(unsigned lo, unsigned bits, unsigned scale) {
	return [=](CPU& c, u32 w) {
		return c.store<T>(c.x[RJ(w)] + ((u64)sext(field(w, lo, bits), bits) << scale), (T)c.x[RD(w)]) ? OK : FAULT;
	};
}
template <typename T, typename R> ExecFn ld_x() {
	return [](CPU& c, u32 w) {
		T t;
		if (!c.load<T>(c.x[RJ(w)] + c.x[RK(w)], t)) return FAULT;
		c.setx(RD(w), (u64)(R)t);
		return OK;
	};
}
template <typename T> ExecFn st_x() {
	return [](CPU& c, u32 w) { return c.store<T>(c.x[RJ(w)] + c.x[RK(w)], (T)c.x[RD(w)]) ? OK : FAULT; };
}
template <typename T> void amo(const std::string& op, const std::string& suf, T (*f)(T, T))
{
	using S = std::make_signed_t<T>;
	ExecFn e = [f](CPU& c, u32 w) {
		const u64 a = c.x[RJ(w)];
		if (a % sizeof(T)) return UNSPEC;
		if (RD(w) && (RD(w) == RJ(w) || RD(w) == RK(w))) return UNSPEC;
		T old;
		if (!c.mem->writable(a, sizeof(T)) || !c.load<T>(a, old)) { c.fault_addr = a; return FAULT; }
		const T nv = f(old, (T)c.x[RK(w)]);
		c.store<T>(a, nv);
		c.setx(RD(w), (u64)(i64)(S)old);
		return OK;
	};
	def(op + "." + suf, e);
	def(op + "_db." + suf, e);
}
template <typename T> void amos(const std::string& s)
{
	using S = std::make_signed_t<T>;
	amo<T>("amswap", s, [](T, T b) { return b; });
	amo<T>("amadd", s, [](T a, T b) { return (T)(a + b); });
	amo<T>("amand", s, [](T a, T b) { return (T)(a & b); });
	amo<T>("amor", s, [](T a, T b) { return (T)(a | b); });
	amo<T>("amxor", s, [](T a, T b) { return (T)(a ^ b); });
	amo<T>("ammax", s, [](T a, T b) { return (S)a > (S)b ? a : b; });
	amo<T>("ammin", s, [](T a, T b) { return (S)a < (S)b ? a : b; });
	amo<T>("ammax", s + "u", [](T a, T b) { return a > b ? a : b; });
	amo<T>("ammin", s + "u", [](T a, T b) { return a < b ? a : b; });
}
template <typename T> void llsc(const char* ll, const char* sc)
{
	using S = std::make_signed_t<T>;
	def(ll, [](CPU& c, u32 w) {
		const u64 a = c.x[RJ(w)] + ((u64)sext(field(w, 10, 14), 14) << 2);
		if (a % sizeof(T)) return UNSPEC;
		T t;
		if (!c.load<T>(a, t)) return FAULT;
		c.setx(RD(w), (u64)(i64)(S)t);
		c.ll = true; c.ll_addr = a;
		return OK;
	});
	def(sc, [](CPU& c, u32 w) {
		const u64 a = c.x[RJ(w)] + ((u64)sext(field(w, 10, 14), 14) << 2);
		if (a % sizeof(T)) return UNSPEC;
		if (!c.ll) { c.setx(RD(w), 0); return OK; }
		if (a != c.ll_addr) return UNSPEC;
		if (!c.store<T>(a, (T)c.x[RD(w)])) return FAULT;
		c.ll = false;
		c.setx(RD(w), 1);
		return OK;
	});
}
template <unsigned N> Outcome vload(CPU& c, unsigned r, u64 a)
{
	std::array<u8, N> t;
	if (!c.load(a, t)) return FAULT;
	memcpy(c.v[r].b, t.data(), N);
	c.vdef[r] = N;
	return OK;
}
template <unsigned N> Outcome vstore(CPU& c, unsigned r, u64 a)
{
	std::array<u8, N> t;
	memcpy(t.data(), c.v[r].b, N);
	return c.store(a, t) ? OK : FAULT;
}
void memory()
{
	def("ld.b", ld_i<i8, i64>(10, 12, 0)); def("ld.h", ld_i<i16, i64>(10, 12, 0));
	def("ld.w", ld_i<i32, i64>(10, 12, 0)); def("ld.d", ld_i<u64, u64>(10, 12, 0));
	def("ld.bu", ld_i<u8, u64>(10, 12, 0)); def("ld.hu", ld_i<u16, u64>(10, 12, 0)); def("ld.wu", ld_i<u32, u64>(10, 12, 0));
	def("st.b", st_i<u8>(10, 12, 0)); def("st.h", st_i<u16>(10, 12, 0));
	def("st.w", st_i<u32>(10, 12, 0)); def("st.d", st_i<u64>(10, 12, 0));
	def("ldptr.w", ld_i<i32, i64>(10, 14, 2)); def("ldptr.d", ld_i<u64, u64>(10, 14, 2));
	def("stptr.w", st_i<u32>(10, 14, 2)); def("stptr.d", st_i<u64>(10, 14, 2));
	def("ldx.b", ld_x<i8, i64>()); def("ldx.h", ld_x<i16, i64>()); def("ldx.w", ld_x<i32, i64>()); def("ldx.d", ld_x<u64, u64>());
	def("ldx.bu", ld_x<u8, u64>()); def("ldx.hu", ld_x<u16, u64>()); def("ldx.wu", ld_x<u32, u64>());
	def("stx.b", st_x<u8>()); def("stx.h", st_x<u16>()); def("stx.w", st_x<u32>()); def("stx.d", st_x<u64>());
	amos<u32>("w"); amos<u64>("d");
	llsc<u32>("ll.w", "sc.w"); llsc<u64>("ll.d", "sc.d");
	auto imm = [](CPU& c, u32 w) { return c.x[RJ(w)] + (u64)sext(field(w, 10, 12), 12); };
	auto idx = [](CPU& c, u32 w) { return c.x[RJ(w)] + c.x[RK(w)]; };
#define VM(name, N, ADDR) \
	def(name, [=](CPU& c, u32 w) { return vload<N>(c, RD(w), ADDR(c, w)); });
#define VS(name, N, ADDR) \
	def(name, [=](CPU& c, u32 w) { return vstore<N>(c, RD(w), ADDR(c, w)); });
	VM("fld.s", 4, imm) VM("fld.d", 8, imm) VM("vld", 16, imm) VM("xvld", 32, imm)
	VS("fst.s", 4, imm) VS("fst.d", 8, imm) VS("vst", 16, imm) VS("xvst", 32, imm)
	VM("fldx.s", 4, idx) VM("fldx.d", 8, idx) VM("vldx", 16, idx) VM("xvldx", 32, idx)
	VS("fstx.s", 4, idx) VS("fstx.d", 8, idx) VS("vstx", 16, idx) VS("xvstx", 32, idx)
}

// ---- scalar FP ----
template <typename T> struct FI;
template <> struct FI<float> { using U = u32; using I = i32; };
template <> struct FI<double> { using U = u64; using I = i64; };
template <typename T> void setf(CPU& c, unsigned r, T v) { c.setlane<T>(r, 0, v); c.vdef[r] = sizeof(T); c.lane_nan[r] = sizeof(T); }
template <typename T> void setfraw(CPU& c, unsigned r, typename FI<T>::U v) { c.setlane(r, 0, v); c.vdef[r] = sizeof(T); }
template <typename T> bool is_snan(T v)
{
	if (!std::isnan(v)) return false;
	typename FI<T>::U u; memcpy(&u, &v, sizeof u);
	const unsigned q = sizeof(T) == 4 ? 22 : 51;
	return !((u >> q) & 1);
}
template <typename T> T fmax_(T a, T b) {
	if (std::isnan(a) && std::isnan(b)) return std::numeric_limits<T>::quiet_NaN();
	if (std::isnan(a)) return b;
	if (std::isnan(b)) return a;
	if (a == 0 && b == 0) return std::signbit(a) ? b : a;
	return a > b ? a : b;
}
template <typename T> T fmin_(T a, T b) {
	if (std::isnan(a) && std::isnan(b)) return std::numeric_limits<T>::quiet_NaN();
	if (std::isnan(a)) return b;
	if (std::isnan(b)) return a;
	if (a == 0 && b == 0) return std::signbit(a) ? a : b;
	return a < b ? a : b;
}
template <typename T> u64 fclass_(T v)
{
	const bool n = std::signbit(v);
	switch (std::fpclassify(v)) {
	case FP_NAN: return is_snan(v) ? 1 : 2;
	case FP_INFINITE: return n ? 4 : 64;
	case FP_NORMAL: return n ? 8 : 128;
	case FP_SUBNORMAL: return n ? 16 : 256;
	default: return n ? 32 : 512;
	}
}
template <typename I, typename T> I ftrunc_(T v)
{
	if (std::isnan(v)) return 0;
	const long double t = std::trunc((long double)v);
	if (t < (long double)std::numeric_limits<I>::min()) return std::numeric_limits<I>::min();
	if (t > (long double)std::numeric_limits<I>::max()) return std::numeric_limits<I>::max();
	return (I)t;
}
// cond: name part such as "caf", "slt"; quiet and signalling forms differ only in exceptions
template <typename T> bool fcond(const std::string& k, T a, T b)
{
	const bool un = std::isnan(a) || std::isnan(b);
	const bool lt = !un && a < b, eq = !un && a == b, gt = !un && a > b;
	if (k == "af") return false;
	if (k == "lt") return lt;
	if (k == "eq") return eq;
	if (k == "le") return lt || eq;
	if (k == "un") return un;
	if (k == "ult") return un || lt;
	if (k == "ueq") return un || eq;
	if (k == "ule") return un || lt || eq;
	if (k == "ne") return lt || gt;
	if (k == "or") return lt || gt || eq;
	if (k == "une") return un || lt || gt;
	abort();
}
template <typename T> void scalar_fp(const std::string& s)
{
	using I = typename FI<T>::U;
	auto f3 = [&](const char* n, T (*f)(T, T)) {
		def(n + s, [f](CPU& c, u32 w) { setf<T>(c, RD(w), f(c.lane<T>(RJ(w), 0), c.lane<T>(RK(w), 0))); return OK; });
	};
	f3("fadd.", [](T a, T b) -> T { return a + b; });
	f3("fsub.", [](T a, T b) -> T { return a - b; });
	f3("fmul.", [](T a, T b) -> T { return a * b; });
	f3("fdiv.", [](T a, T b) -> T { return a / b; });
	// max/min with a signalling NaN operand: result unspecified here
	def("fmax." + s, [](CPU& c, u32 w) { T a = c.lane<T>(RJ(w), 0), b = c.lane<T>(RK(w), 0); if (is_snan(a) || is_snan(b) || (a == 0 && b == 0)) return UNSPEC; setf<T>(c, RD(w), fmax_(a, b)); return OK; });
	def("fmin." + s, [](CPU& c, u32 w) { T a = c.lane<T>(RJ(w), 0), b = c.lane<T>(RK(w), 0); if (is_snan(a) || is_snan(b) || (a == 0 && b == 0)) return UNSPEC; setf<T>(c, RD(w), fmin_(a, b)); return OK; });
	auto f4 = [&](const char* n, T (*f)(T, T, T)) {
		def(n + s, [f](CPU& c, u32 w) { setf<T>(c, RD(w), f(c.lane<T>(RJ(w), 0), c.lane<T>(RK(w), 0), c.lane<T>(RA(w), 0))); return OK; });
	};
	f4("fmadd.", [](T a, T b, T c) -> T { return std::fma(a, b, c); });
	f4("fmsub.", [](T a, T b, T c) -> T { return std::fma(a, b, -c); });
	f4("fnmadd.", [](T a, T b, T c) -> T { return -std::fma(a, b, c); });
	f4("fnmsub.", [](T a, T b, T c) -> T { return -std::fma(a, b, -c); });
	const I sign = (I)1 << (sizeof(I) * 8 - 1);
	def("fabs." + s, [sign](CPU& c, u32 w) { setfraw<T>(c, RD(w), c.lane<I>(RJ(w), 0) & ~sign); return OK; });
	def("fneg." + s, [sign](CPU& c, u32 w) { setfraw<T>(c, RD(w), c.lane<I>(RJ(w), 0) ^ sign); return OK; });
	def("fmov." + s, [](CPU& c, u32 w) { setfraw<T>(c, RD(w), c.lane<I>(RJ(w), 0)); return OK; });
	def("fclass." + s, [](CPU& c, u32 w) { setfraw<T>(c, RD(w), (I)fclass_(c.lane<T>(RJ(w), 0))); return OK; });
	def("fsqrt." + s, [](CPU& c, u32 w) { setf<T>(c, RD(w), std::sqrt(c.lane<T>(RJ(w), 0))); return OK; });
	def("ffint." + s + ".w", [](CPU& c, u32 w) { setf<T>(c, RD(w), (T)c.lane<i32>(RJ(w), 0)); return OK; });
	def("ffint." + s + ".l", [](CPU& c, u32 w) { setf<T>(c, RD(w), (T)c.lane<i64>(RJ(w), 0)); return OK; });
	def("ftintrz.w." + s, [](CPU& c, u32 w) { setfraw<float>(c, RD(w), (u32)ftrunc_<i32, T>(c.lane<T>(RJ(w), 0))); return OK; });
	def("ftintrz.l." + s, [](CPU& c, u32 w) { setfraw<double>(c, RD(w), (u64)ftrunc_<i64, T>(c.lane<T>(RJ(w), 0))); return OK; });
	for (const char* k : {"af", "lt", "eq", "le", "un", "ult", "ueq", "ule", "ne", "or", "une"}) {
		std::string ks = k;
		ExecFn e = [ks](CPU& c, u32 w) {
			const bool r = fcond<T>(ks, c.lane<T>(RJ(w), 0), c.lane<T>(RK(w), 0));
			c.fcc = (c.fcc & ~(1u << (w & 7))) | (r ? 1u << (w & 7) : 0);
			return OK;
		};
		def("fcmp.c" + ks + "." + s, e);
		def("fcmp.s" + ks + "." + s, e);
	}
}
void fp()
{
	scalar_fp<float>("s"); scalar_fp<double>("d");
	def("fcvt.s.d", [](CPU& c, u32 w) { setf<float>(c, RD(w), (float)c.lane<double>(RJ(w), 0)); return OK; });
	def("fcvt.d.s", [](CPU& c, u32 w) { setf<double>(c, RD(w), (double)c.lane<float>(RJ(w), 0)); return OK; });
	def("fsel", [](CPU& c, u32 w) {
		const unsigned src = ((c.fcc >> field(w, 15, 3)) & 1) ? RK(w) : RJ(w);
		setfraw<double>(c, RD(w), c.lane<u64>(src, 0));
		return OK;
	});
	def("movgr2fr.w", [](CPU& c, u32 w) { setfraw<float>(c, RD(w), (u32)c.x[RJ(w)]); return OK; });
	def("movgr2fr.d", [](CPU& c, u32 w) { setfraw<double>(c, RD(w), c.x[RJ(w)]); return OK; });
	def("movfr2gr.s", [](CPU& c, u32 w) { c.setx(RD(w), (u64)(i64)c.lane<i32>(RJ(w), 0)); return OK; });
	def("movfr2gr.d", [](CPU& c, u32 w) { c.setx(RD(w), c.lane<u64>(RJ(w), 0)); return OK; });
	auto setcc = [](CPU& c, unsigned i, bool b) { c.fcc = (c.fcc & ~(1u << i)) | (b ? 1u << i : 0); };
	def("movfr2cf", [=](CPU& c, u32 w) { setcc(c, w & 7, c.v[RJ(w)].b[0] & 1); return OK; });
	def("movgr2cf", [=](CPU& c, u32 w) { setcc(c, w & 7, c.x[RJ(w)] & 1); return OK; });
	def("movcf2fr", [](CPU& c, u32 w) { setfraw<double>(c, RD(w), (c.fcc >> field(w, 5, 3)) & 1); return OK; });
	def("movcf2gr", [](CPU& c, u32 w) { c.setx(RD(w), (c.fcc >> field(w, 5, 3)) & 1); return OK; });
}

// ---- vectors: each op is defined on one 128-bit lane ----
struct Q { alignas(16) u8 b[16];
	template <typename T> T e(unsigned i) const { T t; memcpy(&t, &b[i * sizeof(T)], sizeof(T)); return t; }
	template <typename T> void s(unsigned i, T t) { memcpy(&b[i * sizeof(T)], &t, sizeof(T)); }
};
Q getq(const CPU& c, unsigned r, unsigned l) { Q q; memcpy(q.b, &c.v[r].b[l * 16], 16); return q; }
void putq(CPU& c, unsigned r, unsigned l, const Q& q) { memcpy(&c.v[r].b[l * 16], q.b, 16); }

// op(d_old, j, k, a) -> new d
using VOp = std::function<Q(const Q&, const Q&, const Q&, const Q&, u32 w, unsigned lane)>;
void vop(const std::string& base, VOp f, unsigned nan = 0)
{
	for (int x = 0; x < 2; x++) {
		const unsigned nl = x ? 2 : 1;
		def((x ? "xv" : "v") + base, [f, nl, nan](CPU& c, u32 w) {
			Q r[2];
			for (unsigned l = 0; l < nl; l++)
				r[l] = f(getq(c, RD(w), l), getq(c, RJ(w), l), getq(c, RK(w), l), getq(c, RA(w), l), w, l);
			for (unsigned l = 0; l < nl; l++) putq(c, RD(w), l, r[l]);
			c.vdef[RD(w)] = nl * 16;
			c.lane_nan[RD(w)] = nan;
			return OK;
		});
	}
}
template <typename T> void ew(const std::string& n, std::function<T(T d, T j, T k)> f, unsigned nan = 0)
{
	vop(n, [f](const Q& d, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r;
		for (unsigned i = 0; i < 16 / sizeof(T); i++) r.s<T>(i, f(d.e<T>(i), j.e<T>(i), k.e<T>(i)));
		return r;
	}, nan);
}
template <typename T> void ewi(const std::string& n, unsigned bits, std::function<T(T d, T j, u64 imm)> f)
{
	vop(n, [f, bits](const Q& d, const Q& j, const Q&, const Q&, u32 w, unsigned) {
		Q r;
		for (unsigned i = 0; i < 16 / sizeof(T); i++) r.s<T>(i, f(d.e<T>(i), j.e<T>(i), field(w, 10, bits)));
		return r;
	});
}
template <typename T> void vint(const std::string& s)
{
	using U = std::make_unsigned_t<T>;
	constexpr unsigned N = 16 / sizeof(T);
	constexpr unsigned LB = sizeof(T) == 1 ? 3 : sizeof(T) == 2 ? 4 : sizeof(T) == 4 ? 5 : 6;
	ew<U>("add." + s, [](U, U a, U b) { return (U)(a + b); });
	ew<U>("sub." + s, [](U, U a, U b) { return (U)(a - b); });
	ew<U>("mul." + s, [](U, U a, U b) { return (U)((u64)a * (u64)b); });
	ew<U>("madd." + s, [](U d, U a, U b) { return (U)((u64)d + (u64)a * (u64)b); });
	ew<T>("max." + s, [](T, T a, T b) { return a > b ? a : b; });
	ew<T>("min." + s, [](T, T a, T b) { return a < b ? a : b; });
	ew<U>("max." + s + "u", [](U, U a, U b) { return a > b ? a : b; });
	ew<U>("min." + s + "u", [](U, U a, U b) { return a < b ? a : b; });
	ew<T>("seq." + s, [](T, T a, T b) -> T { return a == b ? -1 : 0; });
	ew<T>("slt." + s, [](T, T a, T b) -> T { return a < b ? -1 : 0; });
	ew<U>("pcnt." + s, [](U, U a, U) -> U { return (U)__builtin_popcountll((u64)a); });
	ewi<T>("seqi." + s, 5, [](T, T a, u64 i) -> T { return (i64)a == sext(i, 5) ? -1 : 0; });
	ewi<U>("addi." + s + "u", 5, [](U, U a, u64 i) -> U { return (U)(a + i); });
	ewi<U>("slli." + s, LB, [](U, U a, u64 i) -> U { return (U)((u64)a << i); });
	ewi<U>("bitrevi." + s, LB, [](U, U a, u64 i) -> U { return (U)(a ^ ((U)1 << i)); });
	vop("ilvl." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(2 * i, k.e<T>(i)); r.s<T>(2 * i + 1, j.e<T>(i)); } return r; });
	vop("ilvh." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(2 * i, k.e<T>(i + N / 2)); r.s<T>(2 * i + 1, j.e<T>(i + N / 2)); } return r; });
	vop("packev." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(2 * i, k.e<T>(2 * i)); r.s<T>(2 * i + 1, j.e<T>(2 * i)); } return r; });
	vop("packod." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(2 * i, k.e<T>(2 * i + 1)); r.s<T>(2 * i + 1, j.e<T>(2 * i + 1)); } return r; });
	vop("pickev." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(i, k.e<T>(2 * i)); r.s<T>(i + N / 2, j.e<T>(2 * i)); } return r; });
	vop("pickod." + s, [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (unsigned i = 0; i < N / 2; i++) { r.s<T>(i, k.e<T>(2 * i + 1)); r.s<T>(i + N / 2, j.e<T>(2 * i + 1)); } return r; });
	// element moves
	const unsigned ib = sizeof(T) == 1 ? 4 : sizeof(T) == 2 ? 3 : sizeof(T) == 4 ? 2 : 1;
	for (int x = 0; x < 2; x++) def((x ? "xvreplgr2vr." : "vreplgr2vr.") + s, [x](CPU& c, u32 w) {
		for (unsigned i = 0; i < N * (x ? 2 : 1); i++) c.setlane<T>(RD(w), i, (T)c.x[RJ(w)]);
		c.vdef[RD(w)] = x ? 32 : 16; return OK; });
	def("vinsgr2vr." + s, [ib](CPU& c, u32 w) { c.setlane<T>(RD(w), field(w, 10, ib), (T)c.x[RJ(w)]); c.vdef[RD(w)] = 16; return OK; });
	def("vpickve2gr." + s, [ib](CPU& c, u32 w) { c.setx(RD(w), (u64)(i64)c.lane<T>(RJ(w), field(w, 10, ib))); return OK; });
	def("vpickve2gr." + s + "u", [ib](CPU& c, u32 w) { c.setx(RD(w), (u64)c.lane<U>(RJ(w), field(w, 10, ib))); return OK; });
	vop("replvei." + s, [ib](const Q&, const Q& j, const Q&, const Q&, u32 w, unsigned) {
		Q r; for (unsigned i = 0; i < N; i++) r.s<T>(i, j.e<T>(field(w, 10, ib))); return r; });
	for (int x = 0; x < 2; x++) def((x ? "xvreplve." : "vreplve.") + s, [x](CPU& c, u32 w) {
		const unsigned i = c.x[RK(w)] % N;
		Q r[2];
		for (int l = 0; l < (x ? 2 : 1); l++) { Q j = getq(c, RJ(w), l); for (unsigned n = 0; n < N; n++) r[l].s<T>(n, j.e<T>(i)); }
		for (int l = 0; l < (x ? 2 : 1); l++) putq(c, RD(w), l, r[l]);
		c.vdef[RD(w)] = x ? 32 : 16; return OK; });
	for (int x = 0; x < 2; x++) {
		const unsigned nl = x ? 2 : 1;
		auto cc = [](CPU& c, u32 w, bool b) { c.fcc = (c.fcc & ~(1u << (w & 7))) | (b ? 1u << (w & 7) : 0); };
		def((x ? "xvsetanyeqz." : "vsetanyeqz.") + s, [=](CPU& c, u32 w) { bool any = false; for (unsigned i = 0; i < N * nl; i++) any |= c.lane<T>(RJ(w), i) == 0; cc(c, w, any); return OK; });
		def((x ? "xvsetallnez." : "vsetallnez.") + s, [=](CPU& c, u32 w) { bool any = false; for (unsigned i = 0; i < N * nl; i++) any |= c.lane<T>(RJ(w), i) == 0; cc(c, w, !any); return OK; });
	}
}
template <typename T> void vfp(const std::string& s)
{
	using I = typename FI<T>::U;
	const unsigned Z = sizeof(T);
	ew<T>("fadd." + s, [](T, T a, T b) -> T { return a + b; }, Z);
	ew<T>("fsub." + s, [](T, T a, T b) -> T { return a - b; }, Z);
	ew<T>("fmul." + s, [](T, T a, T b) -> T { return a * b; }, Z);
	ew<T>("fdiv." + s, [](T, T a, T b) -> T { return a / b; }, Z);
	auto f4 = [&](const char* n, T (*f)(T, T, T)) {
		vop(n + s, [f](const Q&, const Q& j, const Q& k, const Q& a, u32, unsigned) {
			Q r; for (unsigned i = 0; i < 16 / sizeof(T); i++) r.s<T>(i, f(j.e<T>(i), k.e<T>(i), a.e<T>(i))); return r; }, Z);
	};
	f4("fmadd.", [](T a, T b, T c) -> T { return std::fma(a, b, c); });
	f4("fmsub.", [](T a, T b, T c) -> T { return std::fma(a, b, -c); });
	f4("fnmadd.", [](T a, T b, T c) -> T { return -std::fma(a, b, c); });
	f4("fnmsub.", [](T a, T b, T c) -> T { return -std::fma(a, b, -c); });
	for (const char* k : {"af", "lt", "eq", "le", "un", "ult", "ueq", "ule", "ne", "or", "une"}) {
		std::string ks = k;
		VOp e = [ks](const Q&, const Q& j, const Q& k2, const Q&, u32, unsigned) {
			Q r; for (unsigned i = 0; i < 16 / sizeof(T); i++) r.s<I>(i, fcond<T>(ks, j.e<T>(i), k2.e<T>(i)) ? (I)-1 : 0); return r; };
		vop("fcmp.c" + ks + "." + s, e);
		vop("fcmp.s" + ks + "." + s, e);
	}
}
u64 vldi_value(u32 imm13, bool& ok)
{
	ok = true;
	const u64 d = imm13 & 0xff;
	auto dup32 = [](u64 v) { v &= 0xffffffff; return v | (v << 32); };
	auto dup16 = [&](u64 v) { v &= 0xffff; return dup32(v | (v << 16)); };
	auto dup8 = [&](u64 v) { v &= 0xff; return dup16(v | (v << 8)); };
	if (!(imm13 & 0x1000)) {
		const i64 s10 = sext(imm13 & 0x3ff, 10);
		switch ((imm13 >> 10) & 3) {
		case 0: return dup8((u64)s10);
		case 1: return dup16((u64)s10);
		case 2: return dup32((u64)s10);
		default: return (u64)s10;
		}
	}
	const u64 sgn = (d >> 7) & 1, b6 = (d >> 6) & 1, lo6 = d & 0x3f;
	const u64 f32 = (sgn << 31) | ((b6 ? 0x1full : 0x20ull) << 25) | (lo6 << 19);
	switch ((imm13 >> 8) & 15) {
	case 0: return dup32(d);
	case 1: return dup32(d << 8);
	case 2: return dup32(d << 16);
	case 3: return dup32(d << 24);
	case 4: return dup16(d);
	case 5: return dup16(d << 8);
	case 6: return dup32((d << 8) | 0xff);
	case 7: return dup32((d << 16) | 0xffff);
	case 8: return dup8(d);
	case 9: { u64 r = 0; for (int i = 0; i < 8; i++) if ((d >> i) & 1) r |= 0xffull << (8 * i); return r; }
	case 10: return dup32(f32);
	case 11: return f32;
	case 12: return (sgn << 63) | ((b6 ? 0xffull : 0x100ull) << 54) | (lo6 << 48);
	default: ok = false; return 0;
	}
}
void vectors()
{
	vint<i8>("b"); vint<i16>("h"); vint<i32>("w"); vint<i64>("d");
	vfp<float>("s"); vfp<double>("d");
	ew<u64>("and.v", [](u64, u64 a, u64 b) { return a & b; });
	ew<u64>("or.v", [](u64, u64 a, u64 b) { return a | b; });
	ew<u64>("xor.v", [](u64, u64 a, u64 b) { return a ^ b; });
	ew<u64>("nor.v", [](u64, u64 a, u64 b) { return ~(a | b); });
	ew<u64>("orn.v", [](u64, u64 a, u64 b) { return a | ~b; });
	ew<u64>("andn.v", [](u64, u64 a, u64 b) { return ~a & b; });
	ewi<u8>("ori.b", 8, [](u8, u8 a, u64 i) -> u8 { return a | (u8)i; });
	ewi<u8>("xori.b", 8, [](u8, u8 a, u64 i) -> u8 { return a ^ (u8)i; });
	ewi<u8>("andi.b", 8, [](u8, u8 a, u64 i) -> u8 { return a & (u8)i; });
	vop("bitsel.v", [](const Q&, const Q& j, const Q& k, const Q& a, u32, unsigned) {
		Q r; for (unsigned i = 0; i < 16; i++) r.b[i] = (j.b[i] & ~a.b[i]) | (k.b[i] & a.b[i]); return r; });
	// indices beyond 31 are machine dependent
	for (int x = 0; x < 2; x++) def(x ? "xvshuf.b" : "vshuf.b", [x](CPU& c, u32 w) {
		Q r[2];
		for (int l = 0; l < (x ? 2 : 1); l++) {
			Q j = getq(c, RJ(w), l), k = getq(c, RK(w), l), a = getq(c, RA(w), l);
			for (int i = 0; i < 16; i++) { if (a.b[i] > 31) return UNSPEC; r[l].b[i] = a.b[i] < 16 ? k.b[a.b[i]] : j.b[a.b[i] - 16]; }
		}
		for (int l = 0; l < (x ? 2 : 1); l++) putq(c, RD(w), l, r[l]);
		c.vdef[RD(w)] = x ? 32 : 16; return OK; });
	vop("haddw.d.w", [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; for (int i = 0; i < 2; i++) r.s<i64>(i, (i64)j.e<i32>(2 * i + 1) + (i64)k.e<i32>(2 * i)); return r; });
	vop("haddw.q.d", [](const Q&, const Q& j, const Q& k, const Q&, u32, unsigned) {
		Q r; r.s<i128>(0, (i128)j.e<i64>(1) + (i128)k.e<i64>(0)); return r; });
	vop("msknz.b", [](const Q&, const Q& j, const Q&, const Q&, u32, unsigned) {
		Q r = {}; u16 m = 0; for (int i = 0; i < 16; i++) if (j.b[i]) m |= 1 << i; r.s<u16>(0, m); return r; });
	vop("frstpi.b", [](const Q& d, const Q& j, const Q&, const Q&, u32 w, unsigned) {
		Q r = d; int n = 0; while (n < 16 && !(j.b[n] & 0x80)) n++; r.b[field(w, 10, 5) % 16] = (u8)n; return r; });
	vop("ftintrz.w.s", [](const Q&, const Q& j, const Q&, const Q&, u32, unsigned) {
		Q r; for (int i = 0; i < 4; i++) r.s<i32>(i, ftrunc_<i32, float>(j.e<float>(i))); return r; });
	vop("ftintrz.l.d", [](const Q&, const Q& j, const Q&, const Q&, u32, unsigned) {
		Q r; for (int i = 0; i < 2; i++) r.s<i64>(i, ftrunc_<i64, double>(j.e<double>(i))); return r; });
	for (int x = 0; x < 2; x++) def(x ? "xvldi" : "vldi", [x](CPU& c, u32 w) {
		bool ok; const u64 v = vldi_value(field(w, 5, 13), ok);
		if (!ok) return UNSPEC;
		for (int i = 0; i < (x ? 4 : 2); i++) c.setlane<u64>(RD(w), i, v);
		c.vdef[RD(w)] = x ? 32 : 16; return OK; });
	def("xvpermi.d", [](CPU& c, u32 w) {
		u64 t[4]; for (int i = 0; i < 4; i++) t[i] = c.lane<u64>(RJ(w), field(w, 10 + 2 * i, 2));
		for (int i = 0; i < 4; i++) c.setlane<u64>(RD(w), i, t[i]);
		c.vdef[RD(w)] = 32; return OK; });
	def("xvpermi.q", [](CPU& c, u32 w) {
		const unsigned imm = field(w, 10, 8);
		if (imm & 0xcc) return UNSPEC;
		Q src[4] = {getq(c, RJ(w), 0), getq(c, RJ(w), 1), getq(c, RD(w), 0), getq(c, RD(w), 1)};
		putq(c, RD(w), 0, src[imm & 3]); putq(c, RD(w), 1, src[(imm >> 4) & 3]);
		c.vdef[RD(w)] = 32; return OK; });
	def("xvpickve2gr.w", [](CPU& c, u32 w) { c.setx(RD(w), (u64)(i64)c.lane<i32>(RJ(w), field(w, 10, 3))); return OK; });
	def("xvpickve.w", [](CPU& c, u32 w) {
		const u32 t = c.lane<u32>(RJ(w), field(w, 10, 3));
		memset(c.v[RD(w)].b, 0, 32); c.setlane<u32>(RD(w), 0, t);
		c.vdef[RD(w)] = 32; return OK; });
	for (int x = 0; x < 2; x++) def(x ? "xvseteqz.v" : "vseteqz.v", [x](CPU& c, u32 w) {
		bool z = true; for (int i = 0; i < (x ? 32 : 16); i++) z &= c.v[RJ(w)].b[i] == 0;
		c.fcc = (c.fcc & ~(1u << (w & 7))) | (z ? 1u << (w & 7) : 0); return OK; });
}

struct Init { Init() { integer(); control(); memory(); fp(); vectors(); } };
} // anon

const std::vector<Insn>& table()
{
	static std::vector<Insn> t = [] {
		static Init init;
		std::vector<Insn> t;
#define ISA(n, f, m, k) t.push_back({n, f, m, k, nullptr});
#include "isa_table.inc"
#undef ISA
		for (auto& e : t) {
			auto it = reg().find(e.name);
			if (it == reg().end()) { fprintf(stderr, "reference lacks %s\n", e.name); abort(); }
			e.exec = it->second;
		}
		return t;
	}();
	return t;
}

const Insn* find(uint32_t w)
{
	// bucket on the top 6 bits
	static std::vector<std::vector<const Insn*>> b = [] {
		std::vector<std::vector<const Insn*>> b(64);
		for (auto& e : table())
			for (unsigned k = 0; k < 64; k++)
				if (((k << 26) & e.mask & 0xfc000000) == (e.match & (0xfc000000 & e.mask))) b[k].push_back(&e);
		return b;
	}();
	for (auto* e : b[w >> 26]) if ((w & e->mask) == e->match) return e;
	return nullptr;
}
const Insn* by_name(const std::string& n)
{
	static std::unordered_map<std::string, const Insn*> m = [] {
		std::unordered_map<std::string, const Insn*> m;
		for (auto& e : table()) m[e.name] = &e;
		return m;
	}();
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}

Outcome CPU::step(uint32_t w)
{
	const Insn* i = find(w);
	if (!i) return UNKNOWN;
	Outcome o = i->exec(*this, w);
	if (o == OK) pc += 4;
	return o;
}

} // ref
