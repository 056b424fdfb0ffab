// Running a random program on a real machine, and comparing it with the reference run.
#pragma once
#include "prog.hpp"
#include <libloong/debug.hpp>
using namespace pbt;
using namespace vm;
using namespace prog;

namespace {
std::vector<uint64_t> g_log;

void install()
{
	static bool done = false;
	if (done) return;
	done = true;
	Machine::install_syscall_handler(0, [](Machine& m) { g_log.push_back(m.cpu.pc() ^ 0xb4ea); m.cpu.reg(4) ^= 0x5555; });
	Machine::install_syscall_handler(SYS_LOG, [](Machine& m) { g_log.push_back(m.cpu.reg(4)); m.cpu.reg(4) = m.cpu.reg(4) * 3 + 1; });
	Machine::install_syscall_handler(SYS_STOP, [](Machine& m) { m.stop(); });
	Machine::install_syscall_handler(SYS_JUMP, [](Machine& m) { g_log.push_back(m.cpu.pc()); m.cpu.registers().pc = m.cpu.reg(5) - 4; });
	Machine::install_syscall_handler(SYS_THROW, [](Machine&) { throw MachineException(loongarch::GUEST_ABORT, "guest abort", 1); });
	Machine::install_syscall_handler(SYS_POKE, [](Machine& m) {
		const uint64_t base = *(uint64_t*)m.get_userdata<uint64_t>();
		m.memory.write<uint64_t>(base + (m.cpu.reg(4) & 0xff8), m.cpu.reg(5));
		m.cpu.reg(6) = m.cpu.pc();
	});
}

struct Real {
	std::unique_ptr<Machine> m;
	uint64_t data_base;
	const Program* p;
	explicit Real(const Program& prog, std::shared_ptr<MachineOptions> opts = nullptr) : data_base(prog.lay.data), p(&prog)
	{
		install();
		m = bare(p->lay.size, p->lay.code, p->lay.data);
		if (opts) m->set_options(opts);
		m->set_userdata(&data_base);
		start();
	}
	void start()
	{
		Machine& mm = *m;
		memset(arena(mm), 0, p->lay.size);
		if (LA_MASKED_MEMORY_BITS > 20) { ref::Mem none; vm::add_windows(none, 0); vm::copy_in(mm, none); }
		load_state(mm, p->init);
		memcpy(arena(mm) + p->lay.code, p->words.data(), p->words.size() * 4);
		memcpy(arena(mm) + p->lay.data, p->data.data(), p->data.size());
		mm.memory.evict_execute_segments();
		const size_t n1 = p->split ? p->split : p->words.size();
		mm.cpu.init_execute_area(p->words.data(), p->lay.code, n1 * 4);
		if (p->split)
			mm.memory.create_execute_segment(mm.options(), p->words.data() + n1, p->lay.code + n1 * 4, (p->words.size() - n1) * 4, false, false);
		mm.cpu.jump(p->lay.code);
		mm.set_instruction_counter(0);
		g_log.clear();
	}
};

std::string listing(Machine& m, const Program& p, uint64_t around = 0)
{
	std::string s = fmt("\n  program of %zu instructions at 0x%lx%s", p.words.size(), (unsigned long)p.lay.code, p.split ? fmt(", second execute segment at 0x%lx", (unsigned long)(p.lay.code + p.split * 4)).c_str() : "");
	size_t lo = 0, hi = p.words.size();
	if (hi > 48) { size_t c = around ? (around - p.lay.code) / 4 : 0; lo = c > 24 ? c - 24 : 0; hi = std::min(hi, lo + 48); }
	const uint64_t pc0 = m.cpu.pc();
	for (size_t i = lo; i < hi; i++) { m.cpu.registers().pc = p.lay.code + i * 4; s += fmt("\n    %lx: %08x %s", (unsigned long)(p.lay.code + i * 4), p.words[i], dis(m, p.words[i]).c_str()); }
	m.cpu.registers().pc = pc0;
	return s;
}
std::string log_diff(const Run& r)
{
	if (r.log == g_log) return "";
	size_t i = 0; while (i < r.log.size() && i < g_log.size() && r.log[i] == g_log[i]) i++;
	return fmt("host call log differs at entry %zu: %s, reference %s (lengths %zu and %zu)", i,
		i < g_log.size() ? fmt("0x%lx", (unsigned long)g_log[i]).c_str() : "none", i < r.log.size() ? fmt("0x%lx", (unsigned long)r.log[i]).c_str() : "none", g_log.size(), r.log.size());
}

// Outcome of one simulate() call on the real machine
struct Got { bool threw = false, ret = false; int type = -1; std::string what; uint64_t data = 0, pc = 0; };
template <typename F> Got attempt(F f, Machine* m = nullptr)
{
	Got o;
	try { o.ret = f(); }
	catch (const MachineException& e) { o.threw = true; o.type = e.type(); o.what = e.what(); o.data = e.data(); }
	if (m) o.pc = m->cpu.pc();
	return o;
}
bool is_exception(Event e) { return e == E_FAULT || e == E_SYSTHROW || e == E_UNKNOWNSYS || e == E_EXEC; }
int expected_type(Event e)
{
	switch (e) {
	case E_FAULT: return loongarch::PROTECTION_FAULT;
	case E_SYSTHROW: return THROW_TYPE;
	case E_UNKNOWNSYS: return loongarch::UNIMPLEMENTED_SYSCALL;
	case E_EXEC: return loongarch::EXECUTION_SPACE_PROTECTION_FAULT;
	default: return -1;
	}
}

Program gen(Gen& g, Run& r, Opts o, uint64_t max_steps)
{
	Program p = make(g, o);
	if (!prepare(p, r, max_steps)) r.steps = 0;
	return p;
}
void classify(Gen& g, const Program& p, const Run& r)
{
	g.label(r.ev == E_NONE ? "~runs on" : event_name(r.ev));
	if (p.split) g.label("two execute segments");
	if (r.transfers.size() > 20) g.label(">20 taken branches");
	if (r.steps > 1000) g.label(">1000 instructions executed");
	if (r.steps >= 3) g.nontrivial(mix(hash_bytes(p.words.data(), p.words.size() * 4), mix(r.steps, r.c.pc)));
}
// compare after an exception: general state and memory, pc only for system calls
void compare_exception(Machine& m, const Program& p, const Run& r, const Got& o, const char* tag, bool step)
{
	const char* en = event_name(r.ev);
	if (!o.threw) fail(fmt("%s:noexc:%d", tag, r.ev), fmt("%s: no exception, the reference expects: %s at pc 0x%lx", tag, en, (unsigned long)r.fault_pc) + listing(m, p, r.fault_pc));
	// an unmapped jump target below the readable area is reported as one or the other kind of protection fault
	const bool type_ok = o.type == expected_type(r.ev) || (step && r.ev == E_EXEC && o.type == loongarch::PROTECTION_FAULT);
	if (!type_ok) fail(fmt("%s:exctype:%d", tag, r.ev), fmt("%s: exception type %d (%s) at pc 0x%lx, expected type %d: %s at pc 0x%lx", tag, o.type, o.what.c_str(), (unsigned long)o.pc, expected_type(r.ev), en, (unsigned long)r.fault_pc) + listing(m, p, r.fault_pc));
	const bool pc_known = r.ev == E_SYSTHROW || r.ev == E_UNKNOWNSYS;
	std::string kind, d = compare(m, r.c, kind, true, pc_known);
	if (!d.empty()) fail(fmt("%s:exc:%s", tag, kind.c_str()), fmt("%s: after the exception (%s at pc 0x%lx): ", tag, en, (unsigned long)r.fault_pc) + d + listing(m, p, r.fault_pc));
	d = log_diff(r);
	if (!d.empty()) fail(fmt("%s:exc:log", tag), fmt("%s: ", tag) + d + listing(m, p, r.fault_pc));
}
void compare_running(Machine& m, const Program& p, const Run& r, const char* tag)
{
	std::string kind, d = compare(m, r.c, kind);
	if (!d.empty()) fail(fmt("%s:%s", tag, kind.c_str()), fmt("%s: after %lu instructions: ", tag, (unsigned long)r.steps) + d + listing(m, p, r.c.pc));
	d = log_diff(r);
	if (!d.empty()) fail(fmt("%s:log", tag), fmt("%s: ", tag) + d + listing(m, p, r.c.pc));
}

// One simulate() call of at most `limit` instructions, with the reference following.
// Returns true while the run can be continued.
bool slice(Real& real, Program& p, Run& r, uint64_t limit, uint64_t c0, uint64_t total, const char* tag)
{
	Machine& m = *real.m;
	const uint64_t before = r.steps;
	const size_t tr0 = r.transfers.size();
	if (getenv("PBT_TRACE")) fprintf(stderr, "slice: pc %lx, %lu done, limit %lu, counter %lu\n", (unsigned long)m.cpu.pc(), (unsigned long)before, (unsigned long)limit, (unsigned long)c0);
	Got o = attempt([&] { return m.simulate(c0 + limit < c0 ? UINT64_MAX : c0 + limit, c0); });
	if (o.threw) {
		prog::run(p, r, total + 40000, false);
		if (r.unspec) return false;
		if (!is_exception(r.ev)) fail(fmt("%s:unexpected:%d", tag, o.type), fmt("%s: exception type %d (%s), the reference goes on to: %s after %lu instructions", tag, o.type, o.what.c_str(), event_name(r.ev), (unsigned long)r.steps) + listing(m, p));
		compare_exception(m, p, r, o, tag, false);
		return false;
	}
	const uint64_t n = m.instruction_counter() - c0;
	if (m.instruction_counter() < c0) fail(fmt("%s:counterback", tag), fmt("%s: the instruction counter went from %lu to %lu", tag, (unsigned long)c0, (unsigned long)m.instruction_counter()) + listing(m, p));
	if (n > limit + p.words.size() + 1) fail(fmt("%s:overrun", tag), fmt("%s: limit %lu but the counter advanced by %lu (program has %zu instructions)", tag, (unsigned long)limit, (unsigned long)n, p.words.size()) + listing(m, p));
	prog::run(p, r, before + n, false);
	const uint64_t done = r.steps - before;
	if (r.unspec) return false;
	if (getenv("PBT_TRACE")) fprintf(stderr, "  counter advanced %lu, pc %lx; reference executed %lu, pc %lx, %s\n", (unsigned long)n, (unsigned long)m.cpu.pc(), (unsigned long)done, (unsigned long)r.c.pc, event_name(r.ev));
	if (r.ev == E_STOP || r.ev == E_SYSSTOP) {
		const char* en = event_name(r.ev);
		if (!o.ret) fail(fmt("%s:stopret", tag), fmt("%s: simulate() returned false although the program ended by %s", tag, en) + listing(m, p, r.c.pc));
		if (r.ev == E_SYSSTOP && !m.stopped()) fail(fmt("%s:stopped", tag), fmt("%s: stopped() is false after a host call stopped the machine", tag) + listing(m, p, r.c.pc));
		if (m.instruction_limit_reached()) fail(fmt("%s:limitflag", tag), fmt("%s: instruction_limit_reached() is true although the program ended by %s", tag, en) + listing(m, p, r.c.pc));
		if (n < done || n > done + p.words.size()) fail(fmt("%s:stopcount", tag), fmt("%s: counter advanced by %lu, %lu instructions were executed", tag, (unsigned long)n, (unsigned long)done) + listing(m, p, r.c.pc));
		compare_running(m, p, r, tag);
		return r.ev == E_SYSSTOP;
	}
	if (is_exception(r.ev)) fail(fmt("%s:noexc:%d", tag, r.ev), fmt("%s: counter says %lu instructions ran, the reference has %s after %lu at pc 0x%lx", tag, (unsigned long)n, event_name(r.ev), (unsigned long)done, (unsigned long)r.fault_pc) + listing(m, p, r.fault_pc));
	// ended by the limit
	if (o.ret) fail(fmt("%s:ret", tag), fmt("%s: simulate() reports completion after %lu instructions, limit %lu, but the program is still running", tag, (unsigned long)n, (unsigned long)limit) + listing(m, p, r.c.pc));
	if (n < limit) fail(fmt("%s:early", tag), fmt("%s: simulate() gave up after %lu instructions, before the limit of %lu", tag, (unsigned long)n, (unsigned long)limit) + listing(m, p, r.c.pc));
	if (limit && !m.instruction_limit_reached()) fail(fmt("%s:noflag", tag), fmt("%s: instruction_limit_reached() is false after the limit of %lu ended the run", tag, (unsigned long)limit) + listing(m, p, r.c.pc));
	unsigned after = 0;
	for (size_t i = tr0; i < r.transfers.size(); i++) if (r.transfers[i] - before > limit) after++;
	if (limit && after > 1) fail(fmt("%s:late", tag), fmt("%s: %u taken control transfers after the limit of %lu (ran %lu)", tag, after, (unsigned long)limit, (unsigned long)n) + listing(m, p, r.c.pc));
	compare_running(m, p, r, tag);
	return true;
}

} // namespace
