// Calls from the host into the guest and from the guest into the host,
// against an independent statement of the calling convention.
#include "elfimg.hpp"
#include <array>
#include <map>
#include <optional>
#include <tuple>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
enum { SYS_EXIT = 93, SYS_NEST = 411, SYS_THROW = 412, SYS_FREE = 413 };
constexpr uint64_t REC = 0x40000;          // the function's record of its arguments
constexpr uint64_t RET_INT = 0x40200, RET_FP = 0x40208;
constexpr uint64_t MAIN_REC = 0x40400;     // registers of the interrupted program
constexpr uint64_t CLOBBER = 0x41000;

enum class Small : int8_t { A = -5, B = 100 };
enum class Unsig : uint32_t { X = 3, Y = 0xfffffff0u };
enum Plain : uint16_t { P0 = 0, P1 = 65535 };
struct Pod1 { uint8_t a; };
struct Pod12 { uint32_t a, b, c; };
struct Pod40 { uint64_t a[5]; };

// What the convention says about one argument
struct Want { enum Kind { INT, F32, F64, BYTES } kind; uint64_t bits; std::string bytes; };
struct Place { Want w; bool fp; bool stack; unsigned idx; };

template <typename T> T value(Gen& g);
template <typename T> requires std::is_integral_v<T> T value_of(Gen& g) { return (T)g.u64(); }
template <typename T> struct Arg;
template <typename T> requires std::is_integral_v<T> struct Arg<T> {
	static T draw(Gen& g) { return (T)g.u64(); }
	static Want want(T v) {
		// widened by its own sign up to 32 bits, then sign-extended
		uint64_t b;
		if (sizeof(T) < 4) b = std::is_signed_v<T> ? (uint64_t)(int64_t)v : (uint64_t)v;
		else if (sizeof(T) == 4) b = (uint64_t)(int64_t)(int32_t)(uint32_t)v;
		else b = (uint64_t)v;
		return {Want::INT, b, ""};
	}
};
template <> struct Arg<bool> { static bool draw(Gen& g) { return g.draw(1); } static Want want(bool v) { return {Want::INT, v, ""}; } };
template <typename T> requires std::is_enum_v<T> struct Arg<T> {
	using U = std::underlying_type_t<T>;
	static T draw(Gen& g) { return (T)(U)g.u64(); }
	static Want want(T v) { return Arg<U>::want((U)v); }
};
template <> struct Arg<float> { static float draw(Gen& g) { uint32_t b = (uint32_t)g.u64(); if ((b & 0x7f800000) == 0x7f800000) b &= 0xff800000; float f; memcpy(&f, &b, 4); return f; } static Want want(float v) { uint32_t b; memcpy(&b, &v, 4); return {Want::F32, b, ""}; } };
template <> struct Arg<double> { static double draw(Gen& g) { uint64_t b = g.u64(); if ((b & 0x7ff0000000000000) == 0x7ff0000000000000) b &= 0xfff0000000000000; double f; memcpy(&f, &b, 8); return f; } static Want want(double v) { uint64_t b; memcpy(&b, &v, 8); return {Want::F64, b, ""}; } };
template <> struct Arg<std::string> {
	static std::string draw(Gen& g) { return g.bytes(g.chance(10) ? g.draw(3000) : g.draw(40)); }
	static Want want(const std::string& v) { return {Want::BYTES, 0, v + '\0'}; }
};
template <> struct Arg<const char*> {
	static const char* draw(Gen& g) { static std::array<std::string, 16> keep; static unsigned k; auto& s = keep[k++ % 16]; s = g.bytes(g.draw(40)); for (auto& c : s) if (!c) c = 'z'; return s.c_str(); }
	static Want want(const char* v) { return {Want::BYTES, 0, std::string(v) + '\0'}; }
};
template <typename T> requires std::is_class_v<T> struct Arg<T> {
	static T draw(Gen& g) { T v; const std::string b = g.bytes(sizeof v); memcpy(&v, b.data(), sizeof v); return v; }
	static Want want(const T& v) { return {Want::BYTES, 0, std::string((const char*)&v, sizeof v)}; }
};

std::string kind_name(const Want& w) { return w.kind == Want::INT ? fmt("integer 0x%lx", (unsigned long)w.bits) : w.kind == Want::F32 ? fmt("float %08lx", (unsigned long)w.bits) : w.kind == Want::F64 ? fmt("double %016lx", (unsigned long)w.bits) : fmt("%zu bytes", w.bytes.size()); }

// where each argument goes
std::vector<Place> placement(const std::vector<Want>& ws)
{
	std::vector<Place> out;
	unsigned ia = 0, fa = 0, st = 0;
	for (auto& w : ws) {
		const bool fp = w.kind == Want::F32 || w.kind == Want::F64;
		if (fp && fa < 8) out.push_back({w, true, false, fa++});
		else if (ia < 8) out.push_back({w, false, false, ia++});
		else out.push_back({w, false, true, st++});
	}
	return out;
}

enum Ending { END_RET, END_FAULT, END_THROW, END_LOOP, END_JUMP_AWAY };
struct Guest {
	Image im;
	uint64_t func = 0, exit_stop = 0, exit_sys = 0, main = 0, main_loop = 0;
	unsigned delay = 0;
	uint64_t cost = 0;      // instructions of a call that returns, including the exit stub
	uint64_t main_cost = 0; // instructions of the main program, without the host's
	uint64_t main_sys = 0;  // instructions up to and including the system call
	bool exit_by_sys = false, clobber = false;
	Ending end = END_RET;
};

// the called function records everything a callee may look at
void emit_function(Gen& g, Guest& G)
{
	Asm a(G.im);
	a.stop();                               // entry, never called
	G.exit_stop = a.here(); a.stop();
	G.exit_sys = a.here(); a.syscall(SYS_EXIT); for (int i = 0; i < 2; i++) a.nop();
	a.stop();
	for (unsigned i = g.draw(9); i > 0; i--) a.nop();
	G.func = a.here();
	const size_t w0 = a.w.size();
	a.li(T0, REC);
	for (int i = 0; i < 8; i++) a.st_d(A0 + i, T0, 8 * i);
	for (int i = 0; i < 8; i++) a.fst_d(i, T0, 64 + 8 * i);
	a.st_d(RA, T0, 128); a.st_d(SP, T0, 136); a.st_d(TP, T0, 144);
	for (int i = 0; i < 10; i++) a.st_d(22 + i, T0, 152 + 8 * i);
	unsigned n = a.w.size() - w0;
	if (G.delay) { a.delay(T1, G.delay); n += 1 + 2 * G.delay; }
	size_t w1 = a.w.size();
	if (G.clobber) {
		// use the stack below, and every register apart from ra and sp
		a.addi_d(SP, SP, -64);
		a.st_d(RA, SP, 56);
		for (int i = 0; i < 7; i++) a.st_d(A0 + i, SP, 8 * i);
		a.li(T0, CLOBBER);
		for (int i = 0; i < 32; i++) a.xvld(i, T0, 32 * i);
		for (int i = 2; i < 32; i++) if (i != 3 && i != T0 && i != 21) a.ld_d(i, T0, 8 * i);
		a.ld_d(RA, SP, 56);
		a.addi_d(SP, SP, 64);
		a.raw(0x0114d800 | 0);  // movgr2cf fcc0, r0 -- replaced below if not available
		a.w.pop_back();
	}
	a.li(T0, RET_INT);
	a.ld_d(A0, T0, 0); a.fld_d(0, T0, 8);
	n += a.w.size() - w1;
	switch (G.end) {
	case END_RET: a.ret(); n++; break;
	case END_FAULT: a.st_d(0, 0, 8); break;
	case END_THROW: a.syscall(SYS_THROW); a.ret(); break;
	case END_LOOP: a.nop(); a.b(-4); break;
	case END_JUMP_AWAY: a.li(T0, 0x40000); a.jirl(0, T0, 0); break;
	}
	a.stop();
	n += G.exit_by_sys ? 2 : 1;
	G.cost = n;
}

struct Outcome { bool threw = false; int type = -1; uint64_t data = 0; std::string what; };

struct Call {
	Guest* G; Machine* m;
	uint64_t ret_int = 0; double ret_fp = 0;
};

enum Api { VMCALL, VMCALL_LIMIT, TIMED, PREEMPT, PREEMPT_NOTHROW, PREEMPT_KEEP, NAPI };
const char* api_name[] = {"vmcall", "vmcall<limit>", "timed_vmcall", "preempt", "preempt<nothrow>", "preempt<nothrow, keep registers>"};
constexpr uint64_t SMALL_LIMIT = 400;

// Calls through one of the entry points; returns the integer result as seen by that entry point
template <typename... A>
uint64_t call(Machine& m, Api api, bool by_name, uint64_t func, uint64_t limit, A&... args)
{
	switch (api) {
	case VMCALL: return by_name ? m.vmcall<uint64_t>(std::string("func"), args...) : m.vmcall<uint64_t>(func, args...);
	case VMCALL_LIMIT: return by_name ? m.vmcall<uint64_t, SMALL_LIMIT>(std::string("func"), args...) : m.vmcall<uint64_t, SMALL_LIMIT>(func, args...);
	case TIMED: m.timed_vmcall(func, limit, args...); return m.return_value<uint64_t>();
	case PREEMPT: return by_name ? m.preempt<true, false>(limit, std::string("func"), args...) : m.preempt<true, false>(limit, func, args...);
	case PREEMPT_NOTHROW: return by_name ? m.preempt<false, false>(limit, std::string("func"), args...) : m.preempt<false, false>(limit, func, args...);
	default: return m.preempt<false, true>(limit, func, args...);
	}
}

void check_args(Machine& m, const std::vector<Want>& ws, const Guest& G, uint64_t top, uint64_t exit, const std::string& desc)
{
	auto rec = [&](unsigned off) { return m.memory.read<uint64_t>(REC + off); };
	if (rec(128) != exit) fail("ra", fmt("return address 0x%lx, the exit address is 0x%lx", (unsigned long)rec(128), (unsigned long)exit) + desc);
	const uint64_t sp = rec(136);
	if (sp & 15) fail("sp:align", fmt("stack pointer 0x%lx is not 16-byte aligned", (unsigned long)sp) + desc);
	if (sp > top) fail("sp:top", fmt("stack pointer 0x%lx is above 0x%lx", (unsigned long)sp, (unsigned long)top) + desc);
	std::vector<std::pair<uint64_t, uint64_t>> used;
	unsigned nth = 0;
	for (auto& p : placement(ws)) {
		const std::string who = fmt("argument %u, %s, ", nth++, kind_name(p.w).c_str());
		uint64_t got;
		if (p.fp) got = rec(64 + 8 * p.idx);
		else if (!p.stack) got = rec(8 * p.idx);
		else { got = m.memory.read<uint64_t>(sp + 8 * p.idx); used.push_back({sp + 8 * p.idx, sp + 8 * p.idx + 8}); }
		switch (p.w.kind) {
		case Want::INT: case Want::F64: if (got != p.w.bits) fail("arg", who + fmt("arrives as 0x%lx", (unsigned long)got) + desc); break;
		case Want::F32: if ((uint32_t)got != p.w.bits) fail("arg:f32", who + fmt("arrives as 0x%lx", (unsigned long)got) + desc); break;
		case Want::BYTES: {
			if (got < sp || got + p.w.bytes.size() > top) fail("arg:where", who + fmt("lies at 0x%lx, outside the stack between 0x%lx and 0x%lx", (unsigned long)got, (unsigned long)sp, (unsigned long)top) + desc);
			std::string s(p.w.bytes.size(), 0);
			m.memory.copy_from_guest(s.data(), got, s.size());
			if (s != p.w.bytes) fail("arg:bytes", who + "arrives with other contents" + desc);
			used.push_back({got, got + s.size()});
		} }
	}
	for (size_t i = 0; i < used.size(); i++) for (size_t j = 0; j < i; j++)
		if (used[i].first < used[j].second && used[j].first < used[i].second) fail("arg:overlap", "two arguments overlap on the stack" + desc);
}

void handlers();

template <typename... A>
void one_call(Gen& g)
{
	std::tuple<A...> args{Arg<A>::draw(g)...};
	std::vector<Want> ws;
	std::apply([&](auto&... a) { (ws.push_back(Arg<std::decay_t<decltype(a)>>::want(a)), ...); }, args);
	Guest G;
	G.end = (Ending)g.weighted({70, 8, 8, 8, 6});
	G.delay = g.chance(50) ? g.draw(300) : 0;
	G.clobber = g.chance(50);
	G.exit_by_sys = g.chance(40);
	emit_function(g, G);
	G.im.syms.push_back({"func", G.func, 64});
	const Api api = (Api)g.draw(NAPI - 1);
	if (G.end == END_LOOP && api == VMCALL) { G.end = END_RET; g.label("no limit"); return; }
	std::string cl = g.bytes(32 * 32 + 300);
	G.im.data.assign(0x1000, 0); G.im.data += cl;
	auto L = load(G.im);
	Machine& m = *L;
	handlers();
	const uint64_t exit = G.exit_by_sys ? G.exit_sys : G.exit_stop;
	m.memory.set_exit_address(exit);
	const uint64_t ret = g.u64(); const double retf = Arg<double>::draw(g);
	m.memory.write<uint64_t>(RET_INT, ret); m.memory.write<double>(RET_FP, retf);
	// registers the call has no business with
	uint64_t saved[10]; for (int i = 0; i < 10; i++) m.cpu.reg(22 + i) = saved[i] = g.raw64();
	const uint64_t tp = m.cpu.reg(2) = g.raw64();
	uint64_t sp0 = m.memory.stack_address();
	if (g.chance(30)) { sp0 -= g.draw(0x1000) & ~15ull; }
	m.cpu.reg(3) = sp0;
	const uint64_t top = api == PREEMPT_KEEP ? sp0 : m.memory.stack_address();
	auto before = std::make_unique<loongarch::Registers>(m.cpu.registers());
	const uint64_t cost = G.cost;
	uint64_t limit = g.pick({(uint64_t)20, (uint64_t)100, (uint64_t)400, (uint64_t)1000, (uint64_t)100000}) + g.draw(20);
	if (G.end != END_LOOP && g.chance(40)) limit = cost + 24 + g.draw(10);
	if (api == VMCALL_LIMIT) limit = SMALL_LIMIT;
	const bool by_name = g.chance(25);
	std::string desc = fmt("\n  %s%s of a function of %lu instructions, limit %lu, exit by %s, ending %d", api_name[api], by_name ? " by name" : "", (unsigned long)cost, (unsigned long)limit, G.exit_by_sys ? "system call" : "STOP", G.end);
	for (auto& w : ws) desc += "\n    " + kind_name(w);
	Outcome o; uint64_t r = 0;
	try { r = std::apply([&](auto&... a) { return call(m, api, by_name, G.func, limit, a...); }, args); }
	catch (const MachineException& e) { o = {true, e.type(), e.data(), e.what()}; }
	catch (const std::exception& e) { fail("exc", fmt("raised %s", e.what()) + desc); }
	g.nontrivial(hash_bytes(desc.data(), desc.size(), ret));
	const bool limited = api != VMCALL;
	// a limit which is passed before the function can end
	const bool must_time_out = limited && (G.end == END_LOOP || (G.delay && cost > limit + 8 && cost - limit < 2 * G.delay && limit > 0)) && !(G.end != END_RET && G.end != END_LOOP);
	const bool may_time_out = limited && limit < cost + 24;
	if (must_time_out) {
		g.label("~timed out");
		if (api == PREEMPT_NOTHROW || api == PREEMPT_KEEP) {
			if (o.threw) fail("timeout:threw", fmt("raised %s", o.what.c_str()) + desc);
			if (api == PREEMPT_NOTHROW && !m.instruction_limit_reached()) fail("timeout:flag", "the limit passed, but instruction_limit_reached() is false" + desc);
		} else if (!o.threw || o.type != loongarch::MACHINE_TIMEOUT) fail("timeout", (o.threw ? fmt("raised %s instead of a timeout", o.what.c_str()) : std::string("did not report the timeout")) + desc);
		if (api != PREEMPT_KEEP && m.instruction_counter() > limit + cost + 64) fail("timeout:late", fmt("%lu instructions ran", (unsigned long)m.instruction_counter()) + desc);
	} else if (may_time_out && G.end == END_RET) { g.label("limit at the end"); return; }
	else if (G.end == END_RET) {
		g.label("~returned");
		if (o.threw) fail("ret:threw", fmt("raised %s", o.what.c_str()) + desc);
		if (r != ret) fail("ret", fmt("returned 0x%lx, the function returned 0x%lx", (unsigned long)r, (unsigned long)ret) + desc);
		if (m.return_value<uint64_t>() != ret || m.return_value<int>() != (int)ret || m.return_value<uint8_t>() != (uint8_t)ret) fail("return_value", "return_value<>() is not what the function returned" + desc);
		if (api != PREEMPT_KEEP) {
			const double d = m.return_value<double>();
			if (memcmp(&d, &retf, 8)) fail("ret:fp", fmt("FP result %a, the function returned %a", d, retf) + desc);
			if (m.cpu.pc() != (G.exit_by_sys ? exit + 8 : exit + 4)) fail("pc", fmt("pc is 0x%lx after the exit at 0x%lx", (unsigned long)m.cpu.pc(), (unsigned long)exit) + desc);
			if (m.instruction_limit_reached()) fail("flag", "instruction_limit_reached() after a completed call" + desc);
			if (limited && m.instruction_counter() != cost) fail("count", fmt("%lu instructions counted", (unsigned long)m.instruction_counter()) + desc);
		}
	} else {
		g.label("~failed inside");
		if (may_time_out && o.threw && o.type == loongarch::MACHINE_TIMEOUT) return;
		if (may_time_out && !o.threw) return;
		const int want = G.end == END_FAULT ? loongarch::PROTECTION_FAULT : G.end == END_THROW ? loongarch::GUEST_ABORT : loongarch::EXECUTION_SPACE_PROTECTION_FAULT;
		if (!o.threw || o.type != want) fail("inner", (o.threw ? fmt("raised %s (%d)", o.what.c_str(), o.type) : std::string("returned")) + fmt(", expected exception %d", want) + desc);
	}
	check_args(m, ws, G, top, exit, desc);
	auto rec = [&](unsigned off) { return m.memory.read<uint64_t>(REC + off); };
	if (rec(144) != tp) fail("tp", "the thread pointer changed" + desc);
	for (int i = 0; i < 10; i++) if (rec(152 + 8 * i) != saved[i]) fail("sreg", fmt("register %d changed", 22 + i) + desc);
	if (api == PREEMPT_KEEP) {
		// everything but a0 as before
		loongarch::Registers now = m.cpu.registers();
		if (!o.threw) now.get(4) = before->get(4);
		for (int i = 0; i < 32; i++) {
			if (now.get(i) != before->get(i)) fail("keep", fmt("register %d was 0x%lx and is 0x%lx", i, (unsigned long)before->get(i), (unsigned long)now.get(i)) + desc);
			if (memcmp(&now.getvr(i), &before->getvr(i), 32)) fail("keep:v", fmt("vector register %d changed", i) + desc);
		}
		if (now.pc != before->pc) fail("keep:pc", "pc changed" + desc);
	}
	// calls of unknown names
	if (g.chance(10)) {
		bool threw = false;
		try { m.vmcall<uint64_t>(std::string("nosuch")); } catch (const MachineException&) { threw = true; }
		if (!threw) fail("unknown", "calling an unknown function did not raise" + desc);
	}
	if (g.want_sample()) g.sample((o.threw ? "raised " + o.what : fmt("returned 0x%lx", (unsigned long)r)) + desc);
}
} // namespace

PROP(call_args)
{
	using S = std::string; using C = const char*;
	static void (*const table[])(Gen&) = {
		one_call<>, one_call<int>, one_call<uint32_t>, one_call<int8_t, uint8_t, int16_t, uint16_t, bool>, one_call<uint64_t, int64_t, long, unsigned, int>,
		one_call<float>, one_call<double, float>, one_call<int, float, unsigned, double, Small, Unsig>, one_call<S>, one_call<C>, one_call<S, C, S>, one_call<Pod1>, one_call<Pod12, int, Pod40>,
		one_call<S, Pod12, uint32_t, double, C, Plain>,
		one_call<int, int, int, int, int, int, int, int>, one_call<uint64_t, int, unsigned, int, S, int, int, uint64_t, unsigned, int>,
		one_call<double, double, double, double, float, float, float, float, double>, one_call<float, int, double, float, double, float, double, float, double, float, double, int, int, int, int, int, int, double, S>,
		one_call<S, S, S, S, S, S, S, S, S, int>, one_call<Unsig, Small, Plain, char, wchar_t, unsigned char, long long>,
	};
	table[g.index(std::size(table))](g);
}

// Calls made by a host function while the guest is running
namespace {
struct Nest {
	Gen* g; Guest* G;
	unsigned depth = 0, max_depth = 1;
	bool keep_throw = false;
	uint64_t limit = 0; uint64_t ret = 0;
	bool set_result = false; uint64_t result = 0;
	std::vector<std::string> errors;
	uint64_t at_sp = 0;
	loongarch::Registers inner_before[4];
	unsigned calls = 0, timeouts = 0, failures = 0;
	std::vector<uint8_t> stack;
	uint64_t exit = 0;
	bool expect_timeout = false, expect_fail = false;
};
Nest* nest;

void on_nest(Machine& m)
{
	Nest& N = *nest;
	N.calls++;
	if (N.depth >= N.max_depth) return;
	N.depth++;
	const auto before = std::make_unique<loongarch::Registers>(m.cpu.registers());
	const uint64_t sp = m.cpu.reg(3);
	std::vector<uint8_t> stk(64);
	m.memory.copy_from_guest(stk.data(), sp, 64);
	bool threw = false; int type = -1; uint64_t r = 0;
	const std::string str = "nested argument";
	try {
		if (N.keep_throw) r = m.preempt<true, true>(N.limit, N.G->func, 7, str, 2.5);
		else r = m.preempt<false, true>(N.limit, N.G->func, 7, str, 2.5);
	} catch (const MachineException& e) { threw = true; type = e.type(); }
	auto bad = [&](std::string s) { N.errors.push_back(s); };
	if (N.expect_fail) { if (!threw || type == loongarch::MACHINE_TIMEOUT) bad("fail:the nested call did not raise"); N.failures++; }
	else if (N.expect_timeout) { N.timeouts++; if (N.keep_throw && (!threw || type != loongarch::MACHINE_TIMEOUT)) bad("timeout:the nested call did not time out"); if (!N.keep_throw && threw) bad("timeout:the nested call raised"); }
	else { if (threw) bad(fmt("threw:the nested call raised %d", type)); else if (r != N.ret) bad(fmt("ret:the nested call returned 0x%lx instead of 0x%lx", (unsigned long)r, (unsigned long)N.ret)); }
	auto& now = m.cpu.registers();
	for (int i = 0; i < 32; i++) {
		if (i != 4 && now.get(i) != before->get(i)) bad(fmt("reg:register %d was 0x%lx and is 0x%lx after the nested call", i, (unsigned long)before->get(i), (unsigned long)now.get(i)));
		if (memcmp(&now.getvr(i), &before->getvr(i), 32)) bad(fmt("vreg:vector register %d changed", i));
	}
	for (int i = 0; i < 8; i++) if (now.cf(i) != before->cf(i)) bad("fcc:condition flags changed");
	if (now.pc != before->pc) bad("pc:pc changed");
	std::vector<uint8_t> after(64);
	m.memory.copy_from_guest(after.data(), sp, 64);
	if (after != stk) bad("stack:the stack of the interrupted program changed");
	if (threw || N.depth == 1) m.cpu.reg(4) = N.result; else m.cpu.reg(4) = r;
	N.depth--;
}
void handlers()
{
	Machine::install_syscall_handler(SYS_EXIT, [](Machine& m) { m.stop(); });
	Machine::install_syscall_handler(SYS_THROW, [](Machine& m) { throw MachineException(loongarch::GUEST_ABORT, "guest asked for it", 5); });
	Machine::install_syscall_handler(SYS_NEST, on_nest);
}
}

PROP(call_nested)
{
	Guest G;
	G.end = (Ending)g.weighted({75, 5, 5, 12, 3});
	G.delay = g.chance(50) ? g.draw(300) : 0;
	G.clobber = g.chance(80);
	G.exit_by_sys = g.chance(50);
	const unsigned depth = 1 + (G.end == END_RET ? g.draw(2) : 0);
	emit_function(g, G);
	if (depth > 1) {
		// the function itself makes a host call before it returns
		std::vector<uint32_t> pre;
		Asm a(pre, 0);
		a.addi_d(SP, SP, -16); a.st_d(RA, SP, 0); a.st_d(A0, SP, 8);
		a.syscall(SYS_NEST);
		a.ld_d(A0, SP, 8); a.ld_d(RA, SP, 0); a.addi_d(SP, SP, 16);
		const size_t at = (G.func - G.im.code_va) / 4;
		G.im.code.insert(G.im.code.begin() + at, pre.begin(), pre.end());
		G.cost += pre.size();
	}
	// the interrupted program: fill registers, work, call the host, record registers, work, stop
	Asm a(G.im);
	G.main = a.here();
	const size_t w0 = a.w.size();
	a.li(T0, CLOBBER + 100);
	for (int i = 0; i < 32; i++) a.xvld(i, T0, 31 * i);
	for (int i = 4; i < 32; i++) if (i != T0 && i != 21) a.ld_d(i, T0, 7 * i);
	const unsigned push = 8 * g.draw(12);
	const unsigned d1 = 1 + g.draw(g.chance(30) ? 500 : 5);
	a.addi_d(SP, SP, -(int)((push + 15) & ~15u) - 16);
	for (unsigned i = 0; i < push / 8; i++) a.st_d(4 + i, SP, 8 * i);
	a.ori(A7, 0, SYS_NEST);
	uint64_t n1 = a.w.size() - w0;
	a.delay(21, d1); n1 += 1 + 2 * d1;
	size_t w1 = a.w.size();
	a.raw(0x002b0000);
	G.main_sys = n1 + 1;
	a.li(21, MAIN_REC);
	for (int i = 1; i < 32; i++) if (i != 21) a.st_d(i, 21, 8 * i);
	for (int i = 0; i < 32; i++) a.xvst(i, 21, 256 + 32 * i);
	uint64_t n2 = a.w.size() - w1;
	const unsigned d2 = 1 + g.draw(g.chance(50) ? 900 : 20);
	a.delay(21, d2); n2 += 1 + 2 * d2;
	const bool endless = g.chance(25);
	if (endless) { a.nop(); a.b(-4); } else { a.stop(); n2++; }
	const uint64_t total = n1 + n2;
	G.im.data.assign(0x1000, 0); G.im.data += g.bytes(2000);
	auto L = load(G.im);
	Machine& m = *L;
	handlers();
	Nest N{};
	N.g = &g; N.G = &G; N.max_depth = depth; nest = &N;
	N.keep_throw = g.chance(50);
	N.ret = g.u64(); N.result = g.u64();
	N.exit = G.exit_by_sys ? G.exit_sys : G.exit_stop;
	m.memory.set_exit_address(N.exit);
	m.memory.write<uint64_t>(RET_INT, N.ret);
	N.expect_timeout = G.end == END_LOOP;
	N.expect_fail = G.end == END_FAULT || G.end == END_THROW || G.end == END_JUMP_AWAY;
	N.limit = N.expect_timeout ? 1 + g.draw(3000) : g.chance(50) ? 1000000 : G.cost + 8 + g.draw(100);
	// the main program alone
	const uint64_t sp0 = m.memory.stack_address() - 16 * g.draw(20);
	m.cpu.reg(3) = sp0;
	m.cpu.registers().pc = G.main;
	uint64_t limit = total + 4 + g.draw(50);
	const bool short_limit = endless || g.chance(30);
	if (short_limit) limit = G.main_sys + 66 + 5 + g.draw(2 * d2);
	if (g.chance(10) && !short_limit) limit = UINT64_MAX;
	std::string desc = fmt("\n  main program of %lu instructions%s (host call after %lu), limit %lu; nested call of %lu instructions, ending %d, limit %lu, depth %u, exit by %s", (unsigned long)total, endless ? " and an endless loop" : "", (unsigned long)G.main_sys, (unsigned long)limit,
		(unsigned long)G.cost, G.end, (unsigned long)N.limit, depth, G.exit_by_sys ? "system call" : "STOP");
	g.nontrivial(hash_bytes(desc.data(), desc.size(), N.ret));
	std::string data_before = G.im.data;
	bool done = false;
	const bool inacc = !short_limit && g.chance(15);
	try { if (inacc) { m.cpu.simulate_inaccurate(G.main); done = true; } else done = m.simulate(limit, 0); }
	catch (const std::exception& e) { nest = nullptr; fail("main:exc", fmt("the interrupted program raised %s", e.what()) + desc); }
	nest = nullptr;
	for (auto& e : N.errors) fail("nest:" + e.substr(0, e.find(':')), e.substr(e.find(':') + 1) + desc);
	if (N.calls == 0) fail("main:calls", "the host call was not made" + desc);
	g.label(N.expect_timeout ? "nested timeout" : N.expect_fail ? "nested failure" : "nested return");
	if (short_limit && (endless || limit + 4 < total)) {
		g.label("~outer limit");
		if (done) fail("main:done", "the interrupted program passed its limit and is reported as completed" + desc);
		if (!m.instruction_limit_reached()) fail("main:flag", "instruction_limit_reached() is false" + desc);
		if (m.instruction_counter() < limit || m.instruction_counter() > limit + 8) fail("main:late", fmt("ended after %lu instructions", (unsigned long)m.instruction_counter()) + desc);
	} else if (!short_limit) {
		g.label("~outer completed");
		if (!done) fail("main:limit", "the interrupted program did not complete" + desc);
		if (!inacc && m.instruction_counter() != total) fail("main:count", fmt("%lu instructions counted", (unsigned long)m.instruction_counter()) + desc);
	} else return;
	// its registers survived
	auto at = [&](uint64_t addr) { uint64_t v; memcpy(&v, &data_before[addr - 0x40000], 8); return v; };
	for (int i = 4; i < 32; i++) {
		if (i == 21) continue;
		uint64_t want = i == T0 ? CLOBBER + 100 : at(CLOBBER + 100 + 7 * i);
		if (i == 4) want = N.result;
		if (i == A7) want = SYS_NEST;
		const uint64_t got = m.memory.read<uint64_t>(MAIN_REC + 8 * i);
		if (got != want) fail("main:reg", fmt("register %d of the interrupted program is 0x%lx instead of 0x%lx", i, (unsigned long)got, (unsigned long)want) + desc);
	}
	for (int i = 0; i < 32; i++) {
		uint8_t v[32]; m.memory.copy_from_guest(v, MAIN_REC + 256 + 32 * i, 32);
		if (memcmp(v, &data_before[CLOBBER + 100 + 31 * i - 0x40000], 32)) fail("main:vreg", fmt("vector register %d of the interrupted program changed", i) + desc);
	}
	for (unsigned i = 0; i < push / 8; i++) {
		const unsigned r = 4 + i;
		const uint64_t want = r == T0 ? CLOBBER + 100 : at(CLOBBER + 100 + 7 * r);
		const uint64_t got = m.memory.read<uint64_t>(sp0 - ((push + 15) & ~15u) - 16 + 8 * i);
		if (got != want) fail("main:stack", fmt("stack word %u of the interrupted program is 0x%lx instead of 0x%lx", i, (unsigned long)got, (unsigned long)want) + desc);
	}
	if (g.want_sample()) g.sample("interrupted program unharmed" + desc);
}

// ---- system call interface ----
namespace {
struct Sys {
	std::function<void(Machine&)> fn;
	unsigned calls = 0;
} sys_state;
std::vector<std::pair<int, int>> unknown_log;

struct Regs { uint64_t x[8]; uint64_t f[8]; };
struct Mem { std::map<uint64_t, int> dummy; };

std::string error;
void expect(bool ok, const std::string& what) { if (!ok && error.empty()) error = what; }

constexpr uint64_t STR = 0x42000;   // generated strings and structures

struct Pointed { Pod12* p; };
template <typename T> struct Take {};
struct Cursor { unsigned i = 0, f = 0; bool faults = false; };

// expected value of one argument from the registers, by the documented rules
template <typename T> bool matches(Machine& m, const Regs& r, Cursor& c, const T& got)
{
	if constexpr (std::is_pointer_v<T>) {
		const uint64_t a = r.x[c.i++];
		return (const uint8_t*)got == m.memory.arena_ptr() + a;
	} else if constexpr (std::is_same_v<T, float>) { uint32_t b; memcpy(&b, &got, 4); return b == (uint32_t)r.f[c.f++]; }
	else if constexpr (std::is_same_v<T, double>) { uint64_t b; memcpy(&b, &got, 8); return b == r.f[c.f++]; }
	else if constexpr (std::is_same_v<T, bool>) return got == (r.x[c.i++] != 0);
	else if constexpr (std::is_integral_v<T>) { const uint64_t v = r.x[c.i++]; uint64_t mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T) % 64)) - 1; return ((uint64_t)got & mask) == (v & mask); }
	else if constexpr (std::is_enum_v<T>) return matches(m, r, c, (std::underlying_type_t<T>)got);
	else if constexpr (std::is_same_v<T, std::string_view>) { const uint64_t a = r.x[c.i++], n = r.x[c.i++]; return got.size() == n && (n == 0 || (const uint8_t*)got.data() == m.memory.arena_ptr() + a); }
	else if constexpr (std::is_same_v<T, std::string>) { const uint64_t a = r.x[c.i++]; const char* s = (const char*)m.memory.arena_ptr() + a; const size_t n = strnlen(s, 4096); return got == std::string(s, n); }
	else { const uint64_t a = r.x[c.i++]; return memcmp(&got, m.memory.arena_ptr() + a, sizeof got) == 0; }
}
// registers for one argument: pointers where the type needs them
template <typename T> void prepare_arg(Gen& g, Regs& r, Cursor& c, uint64_t limit)
{
	if constexpr (std::is_same_v<T, std::string_view>) {
		if (g.chance(6)) { r.x[c.i++] = g.chance(50) ? limit - g.draw(8) : g.u64(); r.x[c.i++] = g.u64(); return; }
		r.x[c.i++] = STR + g.draw(0x1000); r.x[c.i++] = g.draw(300);
	}
	else if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) c.f++;
	else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) c.i++;
	else r.x[c.i++] = g.chance(6) ? (g.chance(50) ? limit - g.draw(8) : g.u64()) : STR + g.draw(0xe00) * (std::is_pointer_v<T> ? 4 : 1) % 0x1000;
}
template <typename T> bool arg_ok(const Regs& r, Cursor& c, uint64_t lo, uint64_t limit)
{
	auto in = [&](uint64_t a, uint64_t n) { return a >= lo && a < limit && n <= limit - a; };
	if constexpr (std::is_same_v<T, std::string_view>) { const uint64_t a = r.x[c.i++], n = r.x[c.i++]; return in(a, n); }
	else if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) { c.f++; return true; }
	else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) { c.i++; return true; }
	else if constexpr (std::is_same_v<T, std::string>) { const uint64_t a = r.x[c.i++]; return in(a, 1); }
	else if constexpr (std::is_pointer_v<T>) { const uint64_t a = r.x[c.i++]; return in(a, sizeof(std::remove_pointer_t<T>)); }
	else { const uint64_t a = r.x[c.i++]; return in(a, sizeof(T)); }
}
template <typename... A>
bool take(Gen& g, Machine& m, Regs& r, bool prep, std::string& why)
{
	const uint64_t lo = m.memory.rodata_start(), limit = m.memory.arena_size();
	if (prep) { Cursor c; (prepare_arg<A>(g, r, c, limit), ...); return true; }
	Cursor c; bool ok = true;
	((ok = arg_ok<A>(r, c, lo, limit) && ok), ...);
	bool threw = false;
	try {
		auto t = m.sysargs<A...>();
		Cursor k; unsigned n = 0;
		std::apply([&](const auto&... v) { ((expect(matches<std::decay_t<decltype(v)>>(m, r, k, v), fmt("argument %u of the tuple is wrong", n)), n++), ...); }, t);
	} catch (const MachineException& e) { threw = true; why = e.what(); if (e.type() != loongarch::PROTECTION_FAULT) expect(false, fmt("sysargs raised %s", e.what())); }
	expect(threw == !ok, threw ? "sysargs raised for a valid argument" : "sysargs accepted an invalid pointer");
	return ok;
}
}

PROP(sys_args)
{
	using S = std::string; using V = std::string_view;
	using Fn = bool (*)(Gen&, Machine&, Regs&, bool, std::string&);
	static const Fn table[] = {
		take<int>, take<uint64_t, int64_t, uint32_t, int32_t>, take<int8_t, uint8_t, int16_t, uint16_t, bool>, take<float, double>, take<int, float, long, double, unsigned>,
		take<V>, take<V, V, V>, take<int, V, S, double, V>, take<S>, take<S, S, int>, take<Pod12>, take<Pod1, Pod40, int>, take<const Pod12*>, take<uint32_t*, int, const char*>,
		take<Small, Unsig, Plain>, take<address_t, unsigned, S, V, float, Pod12>, take<float, float, float, float, float, float, float, float>, take<int, int, int, int, int, int, int, int>,
	};
	const Fn fn = table[g.index(std::size(table))];
	Image im;
	Asm a(im);
	const unsigned nr = g.chance(80) ? g.draw(511) : g.pick({0u, 1u, 511u});
	a.raw(0x002b0000);
	a.li(T0, REC);
	a.st_d(A0, T0, 0); a.st_d(A1, T0, 8); a.fst_d(0, T0, 16);
	for (int i = 2; i < 8; i++) a.st_d(A0 + i, T0, 8 + 8 * i);
	a.stop();
	im.data.assign(0x2000, 0);
	std::string strs = g.bytes(0x1800);
	for (unsigned i = 0; i < strs.size(); i++) if (g.chance(1)) strs[i] = 0;
	if (g.chance(50)) for (auto& ch : strs) if (!ch) ch = 1;
	im.data += strs;
	auto L = load(im);
	Machine& m = *L;
	Regs r;
	for (auto& v : r.x) v = g.u64();
	for (auto& v : r.f) v = g.u64();
	std::string why;
	fn(g, m, r, true, why);
	for (int i = 0; i < 8; i++) { m.cpu.reg(A0 + i) = r.x[i]; m.cpu.registers().getvr(i).du[0] = r.f[i]; }
	// the eighth integer register carries the number
	r.x[7] = nr; m.cpu.reg(A7) = nr;
	error.clear();
	const unsigned which = g.draw(8);
	const uint64_t val = g.u64();
	const bool indirect = g.chance(30);
	sys_state.calls = 0;
	sys_state.fn = [&](Machine& mm) {
		expect(&mm == &m, "the handler got another machine");
		expect(fn(g, mm, r, false, why) || true, "");
		for (int i = 0; i < 8; i++) expect(mm.sysarg<uint64_t>(i) == r.x[i] && mm.sysarg<int>(i) == (int)r.x[i] && mm.sysarg<uint8_t>(i) == (uint8_t)r.x[i], fmt("sysarg(%d)", i));
		for (int i = 0; i < 8; i++) { double d = mm.sysarg<double>(i); uint64_t b; memcpy(&b, &d, 8); expect(b == r.f[i], fmt("sysarg<double>(%d)", i)); float f = mm.sysarg<float>(i); uint32_t fb; memcpy(&fb, &f, 4); expect(fb == (uint32_t)r.f[i], fmt("sysarg<float>(%d)", i)); }
		switch (which) {
		case 0: mm.set_result(val); break;
		case 1: mm.set_result((int)val); break;
		case 2: mm.set_result((uint32_t)val); break;
		case 3: mm.set_result((int8_t)val); break;
		case 4: mm.set_result((val & 1) != 0); break;
		case 5: { double d; memcpy(&d, &val, 8); mm.set_result(d); break; }
		case 6: mm.set_result((Small)(int8_t)val); break;
		case 7: { struct { uint64_t a, b; } s{val, ~val}; mm.set_result(s); break; }
		default: break;   // no result
		}
	};
	auto saved = Machine::get_syscall_handlers()[nr];
	Machine::install_syscall_handler(nr, [](Machine& mm) { sys_state.calls++; sys_state.fn(mm); });
	std::string desc = fmt("\n  system call %u, result kind %u of 0x%lx", nr, which, (unsigned long)val);
	for (int i = 0; i < 8; i++) desc += fmt("\n    a%d 0x%lx fa%d 0x%lx", i, (unsigned long)r.x[i], i, (unsigned long)r.f[i]);
	bool done = false; std::string ex;
	try { if (indirect) { while (m.cpu.pc() != im.code_va + (im.code.size() - 1) * 4) m.cpu.step_one(); done = true; } else done = m.simulate(1000, 0); } catch (const std::exception& e) { ex = e.what(); }
	Machine::install_syscall_handler(nr, saved);
	if (!error.empty()) fail("args", error + desc);
	if (!ex.empty() || !done) fail("run", fmt("did not complete: %s", ex.c_str()) + desc);
	if (sys_state.calls != 1) fail("calls", fmt("the handler ran %u times", sys_state.calls) + desc);
	g.nontrivial(hash_bytes(desc.data(), desc.size()));
	if (!why.empty()) g.label("~invalid pointer refused"); else g.label("~arguments resolved");
	uint64_t want = r.x[0], want1 = r.x[1], wantf = r.f[0];
	switch (which) {
	case 0: want = val; break;
	case 1: case 2: want = (int64_t)(int32_t)val; break;
	case 3: case 6: want = (int64_t)(int8_t)val; break;
	case 4: want = val & 1; break;
	case 5: wantf = val; break;
	case 7: want = val; want1 = ~val; break;
	default: break;
	}
	auto at = [&](unsigned o) { return m.memory.read<uint64_t>(REC + o); };
	if (at(0) != want) fail("result", fmt("a0 is 0x%lx instead of 0x%lx", (unsigned long)at(0), (unsigned long)want) + desc);
	if (at(8) != want1) fail("result:a1", fmt("a1 is 0x%lx instead of 0x%lx", (unsigned long)at(8), (unsigned long)want1) + desc);
	if (at(16) != wantf) fail("result:fp", fmt("fa0 is 0x%lx instead of 0x%lx", (unsigned long)at(16), (unsigned long)wantf) + desc);
	for (int i = 2; i < 8; i++) if (at(8 + 8 * i) != r.x[i]) fail("preserved", fmt("a%d changed over the system call", i) + desc);
	if (g.want_sample()) g.sample((why.empty() ? "arguments resolved" : "refused: " + why) + desc);
}

// Which handler runs for which number
PROP(sys_dispatch)
{
	static bool is_set[512];
	static unsigned long who; static long unknown;
	Image im;
	Asm a(im);
	const unsigned n = 1 + g.draw(6);
	std::vector<uint64_t> nrs;
	std::vector<unsigned> inst;
	for (unsigned i = 0; i < 8; i++) inst.push_back(g.draw(511));
	for (unsigned i = 0; i < n; i++) {
		const uint64_t v = g.chance(50) ? inst[g.index(8)] : g.chance(60) ? g.draw(600) : (g.u64() & 0x7fffffff);
		nrs.push_back(v);
		a.li(A7, v); a.raw(0x002b0000);
	}
	a.stop();
	auto L = load(im);
	Machine& m = *L;
	memset(is_set, 0, sizeof is_set);
	auto h = Machine::get_syscall_handlers();
	std::vector<Machine::syscall_t*> saved(h, h + 512);
	auto saved_unknown = Machine::get_unknown_syscall_handler();
	static std::vector<long>* log; std::vector<long> mylog; log = &mylog;
	(void)who; (void)unknown;
	for (unsigned v : inst) { is_set[v] = true; Machine::install_syscall_handler(v, [](Machine& mm) { log->push_back((long)mm.cpu.reg(A7)); }); }
	const bool own_unknown = g.chance(70);
	if (own_unknown) Machine::set_unknown_syscall_handler([](Machine&, int nr) { log->push_back(-1 - (long)nr); });
	// numbers past the table are ignored
	Machine::install_syscall_handler(512 + g.draw(1000), [](Machine&) { log->push_back(-999999); });
	std::string ex; uint64_t data = 0;
	try { m.simulate(10000, 0); } catch (const MachineException& e) { ex = e.what(); data = e.data(); if (e.type() != loongarch::UNIMPLEMENTED_SYSCALL) ex = "(wrong type) " + ex; }
	for (unsigned i = 0; i < 512; i++) h[i] = saved[i];
	Machine::set_unknown_syscall_handler(saved_unknown);
	std::string desc; for (auto v : nrs) desc += fmt("\n  system call %lu (%s)", (unsigned long)v, v < 512 && is_set[v] ? "installed" : "unknown");
	std::vector<long> want; bool stops = false;
	for (auto v : nrs) {
		if (v < 512 && is_set[v]) want.push_back((long)v);
		else if (v < 512 && saved[v] && false) {}
		else if (own_unknown) want.push_back(-1 - (long)v);
		else { stops = true; if (ex.empty() || ex[0] == '(') fail("unknown", "an unknown system call did not raise UNIMPLEMENTED_SYSCALL: " + ex + desc); if (data != v) fail("unknown:nr", fmt("the exception carries %lu", (unsigned long)data) + desc); break; }
	}
	if (!stops && !ex.empty()) fail("raised", "raised " + ex + desc);
	if (mylog != want) fail("dispatch", fmt("%zu handler calls instead of %zu, or in another order", mylog.size(), want.size()) + desc);
	g.nontrivial(hash_bytes(desc.data(), desc.size(), own_unknown));
	if (g.want_sample()) g.sample("handlers ran in order" + desc);
}

// ---- program arguments ----
PROP(setup_args)
{
	Image im;
	Asm a(im); a.stop();
	im.entry = im.code_va;
	auto L = load(im, 0x200000, 0x20000);
	Machine& m = *L;
	std::vector<std::string> args, env;
	const unsigned na = 1 + g.draw(g.chance(10) ? 60 : 6), ne = g.draw(g.chance(10) ? 60 : 6);
	for (unsigned i = 0; i < na; i++) { auto s = g.bytes(g.chance(5) ? g.draw(2000) : g.draw(20)); for (auto& c : s) if (!c) c = 'n'; args.push_back(s); }
	for (unsigned i = 0; i < ne; i++) { auto s = g.bytes(g.draw(30)); for (auto& c : s) if (!c) c = 'n'; env.push_back(s); }
	const uint64_t top = m.memory.stack_address();
	m.cpu.reg(3) = top - (g.chance(30) ? g.draw(200) : 0);
	const uint64_t sp0 = m.cpu.reg(3);
	std::vector<uint8_t> before(arena(m), arena(m) + m.memory.arena_size());
	m.setup_linux(args, env);
	std::string desc = fmt("\n  %u arguments, %u environment strings, initial stack pointer 0x%lx", na, ne, (unsigned long)sp0);
	const uint64_t sp = m.cpu.reg(3);
	g.nontrivial(hash_bytes(desc.data(), desc.size(), na * 131 + ne + args[0].size() * 7919));
	if (sp & 15) fail("align", fmt("the initial stack pointer 0x%lx is not 16-byte aligned", (unsigned long)sp) + desc);
	if (sp >= sp0) fail("sp", "the stack pointer did not move down" + desc);
	auto at = [&](uint64_t p) { return m.memory.read<uint64_t>(p); };
	uint64_t p = sp;
	if (at(p) != na) fail("argc", fmt("argc is %lu", (unsigned long)at(p)) + desc);
	p += 8;
	std::vector<std::pair<uint64_t, uint64_t>> used;
	auto strings = [&](const std::vector<std::string>& want, const char* what) {
		for (auto& s : want) {
			const uint64_t q = at(p); p += 8;
			if (q < sp || q + s.size() + 1 > sp0) fail("where", fmt("an %s string lies at 0x%lx", what, (unsigned long)q) + desc);
			if (memcmp(arena(m) + q, s.c_str(), s.size() + 1)) fail("string", fmt("an %s string is wrong", what) + desc);
			used.push_back({q, q + s.size() + 1});
		}
		if (at(p) != 0) fail("null", fmt("the %s array is not terminated", what) + desc);
		p += 8;
	};
	strings(args, "argument"); strings(env, "environment");
	std::map<uint64_t, uint64_t> aux; unsigned k = 0;
	for (;; p += 16) { const uint64_t t = at(p); if (++k > 40) fail("auxv", "the auxiliary vector does not end" + desc); if (t == 0) { p += 16; break; } if (aux.count(t)) fail("auxv:dup", fmt("auxiliary entry %lu appears twice", (unsigned long)t) + desc); aux[t] = at(p + 8); }
	used.push_back({sp, p});
	auto need = [&](uint64_t t, uint64_t v) { if (!aux.count(t) || aux[t] != v) fail(fmt("auxv:%lu", (unsigned long)t), fmt("auxiliary entry %lu is 0x%lx instead of 0x%lx", (unsigned long)t, (unsigned long)(aux.count(t) ? aux[t] : -1), (unsigned long)v) + desc); };
	need(AT_PAGESZ, 4096); need(AT_ENTRY, m.memory.start_address()); need(AT_PHNUM, 2); need(AT_PHENT, 56); need(AT_PHDR, m.memory.elf_phdr_addr());
	if (!aux.count(AT_RANDOM) || aux[AT_RANDOM] < sp || aux[AT_RANDOM] + 16 > sp0) fail("auxv:random", "AT_RANDOM does not point at 16 bytes on the stack" + desc);
	used.push_back({aux[AT_RANDOM], aux[AT_RANDOM] + 16});
	for (size_t i = 0; i < used.size(); i++) for (size_t j = 0; j < i; j++)
		if (used[i].first < used[j].second && used[j].first < used[i].second) fail("overlap", "two things overlap on the stack" + desc);
	if (memcmp(before.data(), arena(m), sp)) fail("below", "memory below the stack pointer changed" + desc);
	if (memcmp(before.data() + sp0, arena(m) + sp0, before.size() - sp0)) fail("above", "memory above the stack changed" + desc);
	if (g.want_sample()) g.sample("argc, argv, envp and auxv in place" + desc);
}
