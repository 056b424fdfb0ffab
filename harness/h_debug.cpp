// The debugger: what it prints, what it limits, and that it changes nothing.
#include "progreal.hpp"
#include "elfbuild.hpp"
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using loongarch::DebugMachine;

namespace {
// everything the process prints meanwhile
struct Capture {
	int fd, keep;
	Capture()
	{
		fflush(stdout);
		fd = memfd_create("stdout", 0);
		keep = dup(1);
		if (fd < 0 || keep < 0) { perror("capture"); abort(); }
		dup2(fd, 1);
	}
	std::string end()
	{
		fflush(stdout);
		dup2(keep, 1);
		const off_t n = lseek(fd, 0, SEEK_END);
		std::string s(n, 0);
		if (pread(fd, &s[0], n, 0) != n) { perror("capture"); abort(); }
		close(fd); close(keep);
		fd = -1;
		return s;
	}
	~Capture() { if (fd >= 0) end(); }
};
std::vector<std::string> lines_of(const std::string& s)
{
	std::vector<std::string> v;
	for (size_t i = 0; i < s.size();) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j + 1; }
	return v;
}
std::vector<std::string> tokens(const std::string& s)
{
	std::vector<std::string> v;
	std::string t;
	for (char c : s + " ") if (isspace((unsigned char)c)) { if (!t.empty()) v.push_back(t); t.clear(); } else t += c;
	return v;
}
const char* RN[] = {"zero", "ra", "tp", "sp", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "r21", "fp", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"};
// "" when the printed registers are these, in any layout of "name: 0xvalue"
std::string registers_differ(const std::vector<std::string>& t, const ref::CPU& c)
{
	std::map<std::string, std::string> seen;
	for (size_t i = 0; i + 1 < t.size(); i++) {
		std::string n = t[i], v = t[i + 1];
		if (n == ":" && i) n = t[i - 1];
		else if (n.size() > 1 && n.back() == ':') n.pop_back();
		else continue;
		if (v.rfind("0x", 0) == 0) seen[n] = v;
	}
	auto check = [&](const std::string& n, uint64_t want) -> std::string {
		if (!seen.count(n)) return n + " is not shown";
		if (strtoull(seen[n].c_str(), nullptr, 16) != want) return fmt("%s is shown as %s, it is 0x%lx", n.c_str(), seen[n].c_str(), (unsigned long)want);
		return "";
	};
	std::string d = check("PC", c.pc);
	for (int i = 0; i < 32 && d.empty(); i++) if (c.xdef[i]) d = check(RN[i], c.x[i]);
	return d;
}

struct Session {
	std::string file;
	std::unique_ptr<Machine> m;
	std::vector<elfimg::Sym> syms;
	uint64_t data_base;
	// a program with functions
	Session(Gen& g, const Program& p)
	{
		install();
		elfimg::Image im;
		im.code = p.words; im.code_va = p.lay.code; im.data_va = p.lay.data; im.data_size = 16;
		const char* NAMES[] = {"main", "_ZN4Game4stepEid", "_Z3foov", "f.constprop.0", "_start", "_ZNSt6vectorIiE9push_backERKi", "x"};
		uint64_t at = p.lay.code + 4 * g.draw(6);
		const unsigned n = g.draw(8);
		for (unsigned i = 0; i < n && at < p.end(); i++) {
			const uint64_t len = 4 * (1 + g.draw(30));
			syms.push_back({fmt("%s%s", NAMES[g.draw(6)], i && g.chance(50) ? "2" : ""), at, len});
			at += len + (g.chance(30) ? 4 * g.draw(20) : 0);
		}
		im.syms = syms;
		file = elfimg::build(im);
		auto o = vm::options();
		o->memory_max = p.lay.size; o->stack_size = 0x1000; o->brk_size = 0x1000;
		m = std::make_unique<Machine>(std::string_view(file), *o);
		m->set_options(o);
		data_base = p.lay.data;
		m->set_userdata(&data_base);
		start(p);
	}
	void start(const Program& p)
	{
		memset(arena(*m), 0, p.lay.size);
		load_state(*m, p.init);
		memcpy(arena(*m) + p.lay.code, p.words.data(), p.words.size() * 4);
		memcpy(arena(*m) + p.lay.data, p.data.data(), p.data.size());
		m->cpu.jump(p.lay.code);
		m->set_instruction_counter(0);
		g_log.clear();
	}
	// where an address is, as a function name and an offset
	std::string place(uint64_t pc) const
	{
		auto* s = m->lookup_symbol(pc);
		if (!s) return "";
		int st = 0;
		char* d = abi::__cxa_demangle(s->name.c_str(), nullptr, nullptr, &st);
		std::string n = st == 0 && d ? d : s->name;
		free(d);
		return fmt("[%s+0x%lx]", n.c_str(), (unsigned long)(pc - s->address));
	}
};
std::string text_at(Machine& m, uint64_t pc, uint32_t w)
{
	const uint64_t keep = m.cpu.pc();
	m.cpu.registers().pc = pc;
	const std::string s = dis(m, w);
	m.cpu.registers().pc = keep;
	return s;
}
// (a decoded instruction, and one without spaces that vary)
std::string squeeze(const std::string& s) { std::string r; for (auto& t : tokens(s)) r += (r.empty() ? "" : " ") + t; return r; }
} // namespace

// The trace of an execution: every instruction once, in order, where it is, and the
// registers after it
PROP(debug_trace)
{
	Run r;
	Opts o;
	o.max_len = g.chance(20) ? 300 : 80;
	o.branch_pct = g.pick({16u, 8u, 30u});
	o.sys_pct = g.pick({3u, 0u});
	o.two_segments = false;
	Program p = gen(g, r, o, 300);
	if (r.steps == 0) { g.label("nothing executed"); return; }
	classify(g, p, r);
	Session s(g, p);
	Machine& m = *s.m;
	if (!s.syms.empty()) g.label("functions");
	DebugMachine dm(m);
	dm.verbose_instructions = !g.chance(15);
	dm.verbose_registers = g.chance(50);
	dm.short_output = g.chance(20);
	// what objdump prints for each address, once in a while something else
	std::string path;
	uint64_t odd = 0;
	struct Unlink { std::string& p; ~Unlink() { if (!p.empty()) unlink(p.c_str()); } } unlink_{path};
	if (r.steps < 60 && p.words.size() < 60 && g.chance(15)) {
		g.label("beside objdump");
		path = fmt("/tmp/pbt-objdump-%d.txt", (int)getpid());
		if (g.chance(30)) odd = p.lay.code + 4 * g.draw(p.words.size() - 1);
		FILE* f = fopen(path.c_str(), "w");
		for (size_t i = 0; i < p.words.size(); i++) {
			const uint64_t pc = p.lay.code + i * 4;
			fprintf(f, "\n%lx:\t%08x \t%s%s\n", (unsigned long)pc, p.words[i], pc == odd ? "x" : "", text_at(m, pc, p.words[i]).c_str());
		}
		fclose(f);
		dm.compare_objdump = true;
		dm.stop_on_objdump_mismatch = odd || g.chance(50);
		dm.objdump_path = "f() { grep \"^${2#--start-address=0x}:\" " + path + "; }; f";
		dm.filename = "program";
	}
	const unsigned parts = g.chance(30) ? 1 + g.draw(3) : 1;   // the limit counts what each call runs
	Run f; reset_run(p, f);
	unsigned shown = 0;
	for (unsigned k = 0; k < parts && f.steps < r.steps; k++) {
		const uint64_t left = r.steps - f.steps;
		uint64_t lim = k + 1 == parts ? (g.chance(50) ? left : 1 + g.draw(left * 2)) : 1 + g.draw(left - 1);
		// (the marker that ends programs is an instruction like others, for the debugger)
		if (!is_exception(r.ev) && r.ev != E_SYSSTOP && lim > left) lim = left;
		if (g.chance(50)) m.set_instruction_counter(0);
		const uint64_t c0 = m.instruction_counter();
		Capture cap;
		Got got = attempt([&] { dm.simulate(lim); return true; }, &m);
		const std::string out = cap.end();
		const auto lines = lines_of(out);
		size_t at = 0;
		const uint64_t from = f.steps;
		auto where = [&] { return fmt("call %u with a limit of %lu, instruction %lu at 0x%lx: ", k + 1, (unsigned long)lim, (unsigned long)(f.steps - from), (unsigned long)f.c.pc); };
		while (f.steps - from < lim && f.ev == E_NONE) {
			const uint64_t pc = f.c.pc;
			const uint32_t w = (pc >= p.lay.code && pc < p.end()) ? p.words[(pc - p.lay.code) / 4] : 0;
			const uint64_t before = f.steps;
			const std::string at_objdump = dm.compare_objdump && m.lookup_symbol(pc) && pc < p.end() ? (pc == odd ? "x" : "") + text_at(m, pc, w) : "";
			if (dm.verbose_instructions && odd && pc == odd && !at_objdump.empty()) {
				if (!got.threw || got.type != loongarch::ILLEGAL_OPERATION) fail("trace:unlike", where() + "objdump shows another instruction, and execution goes on" + listing(m, p, pc));
				compare_running(m, p, f, "debug");
				return;
			}
			prog::run(p, f, f.steps + 1, false);
			if (f.unspec) return;
			if (f.ev == E_EXEC) {
				// (the debugger reads instructions wherever there is memory)
				if (pc < m.memory.arena_size()) return;
				break;
			}
			if (f.steps == before) return;
			if (dm.verbose_instructions) {
				if (at >= lines.size()) fail("trace:missing", where() + "it is not in the trace, which ends here" + listing(m, p, pc));
				std::string want = text_at(m, pc, w);
				if (!dm.short_output) want = fmt("PC: 0x%lx  %s  ", (unsigned long)pc, s.place(pc).c_str()) + want;
				if (!at_objdump.empty()) want += " ;; ACTUAL: " + at_objdump;
				if (squeeze(lines[at]) != squeeze(want)) fail("trace:line", where() + fmt("shown as \"%s\", it is \"%s\"", lines[at].c_str(), want.c_str()) + listing(m, p, pc));
				at++; shown++;
			}
			if (is_exception(f.ev)) break;
			if (dm.verbose_registers) {
				std::vector<std::string> t;
				for (int k = 0; k < 12 && at < lines.size() && (k == 0 || (lines[at - 1].find("s8") == std::string::npos && t.size() < 110)); k++) { auto x = tokens(lines[at++]); t.insert(t.end(), x.begin(), x.end()); }
				const std::string d = registers_differ(t, f.c);
				if (!d.empty()) fail("trace:registers", where() + "after it, " + d + listing(m, p, pc));
				shown++;
			}
		}
		if (is_exception(f.ev)) {
			compare_exception(m, p, f, got, "debug", true);
			break;
		}
		if (got.threw && f.c.pc >= p.end()) return;   // (ran out of the program)
		if (got.threw) fail(fmt("debug:unexpected:%d", got.type), where() + fmt("exception %d (%s)", got.type, got.what.c_str()) + listing(m, p, got.pc));
		if (f.ev != E_SYSSTOP) {
			const uint64_t n = m.instruction_counter() >= c0 ? m.instruction_counter() - c0 : m.instruction_counter();
			if (f.steps - from == lim && n != lim && m.instruction_counter() != lim) fail("debug:count", where() + fmt("the instruction counter went from %lu to %lu", (unsigned long)c0, (unsigned long)m.instruction_counter()));
			if (!m.instruction_limit_reached()) fail("debug:limit", where() + "the limit ended the execution, and instruction_limit_reached() is false");
		} else if (!m.stopped()) fail("debug:stopped", where() + "the program stopped the machine, and stopped() is false");
		if (at < lines.size() && (dm.verbose_instructions || dm.verbose_registers)) fail("trace:more", where() + "the trace goes on with: " + lines[at]);
		if (!dm.verbose_instructions && !dm.verbose_registers && !out.empty()) fail("trace:noise", where() + "output although nothing is to be shown: " + out.substr(0, 100));
		compare_running(m, p, f, "debug");
		if (f.ev == E_SYSSTOP) f.ev = E_NONE;
	}
	if (shown > 10) g.label(">10 lines shown");
	if (g.want_sample()) g.sample(fmt("%zu instructions, %zu functions, %lu executed in %u calls, %u lines shown", p.words.size(), s.syms.size(), (unsigned long)f.steps, parts, shown));
}

// Calls through the debugger
PROP(debug_call)
{
	// the function stores what it sees, and returns a value
	elfimg::Image im;
	im.code_va = 0x10000; im.data_va = 0x20000; im.data_size = 0x1000;
	auto I = [](uint32_t op, unsigned rd, unsigned rj, int64_t imm) { return op | (uint32_t)(imm & 0xfff) << 10 | rj << 5 | rd; };
	auto& c = im.code;
	const unsigned pad = g.draw(40);
	c.push_back(0x14000000u | 0x20 << 5 | 12);                           // lu12i.w t0, 0x20
	for (unsigned i = 0; i < 8; i++) c.push_back(I(0x29c00000, 4 + i, 12, 8 * i));   // st.d
	c.push_back(I(0x29c00000, 3, 12, 64));
	c.push_back(I(0x29c00000, 1, 12, 72));
	for (unsigned i = 0; i < pad; i++) c.push_back(NOP_WORD);
	const int ret = (int)g.draw(4095) - 2048;
	c.push_back(I(0x02c00000, 4, 0, ret));                                // addi.d a0, zero, ret
	c.push_back(0x4c000020);                                              // ret
	const size_t body = c.size();
	const uint64_t exit_at = im.code_va + 4 * (body + g.draw(3));
	while (im.code_va + 4 * c.size() < exit_at) c.push_back(NOP_WORD);
	c.push_back(I(0x03800000, 11, 0, SYS_STOP));                          // ori a7, SYS_STOP
	c.push_back(SYSCALL_WORD);
	c.push_back(B26OP(0x50000000, 0));
	const uint64_t loop_at = im.code_va + 4 * c.size();
	c.push_back(NOP_WORD);
	c.push_back(B26OP(0x50000000, -1));
	const char* en = g.pick({"fast_exit", "_exit"});
	im.syms = {{"fn", im.code_va, body * 4}, {en, exit_at, 12}};
	const bool no_exit = g.chance(5);
	if (no_exit) im.syms.pop_back();
	install();
	const std::string file = elfimg::build(im);
	auto o = vm::options();
	o->memory_max = 0x80000; o->stack_size = 0x8000; o->brk_size = 0x1000;
	Machine m{std::string_view(file), *o};
	m.set_options(o);
	DebugMachine dm(m);
	dm.verbose_instructions = g.chance(30); dm.verbose_registers = g.chance(20);
	const unsigned calls = 1 + g.draw(3);
	std::string plan;
	for (unsigned k = 0; k < calls; k++) {
		std::vector<std::string> args(g.draw(8));
		for (auto& a : args) { a.resize(g.chance(20) ? g.draw(200) : g.draw(20)); for (auto& ch : a) ch = (char)(1 + g.draw(254)); }
		const bool endless = g.chance(15);
		// before: something else ran, and left a counter
		if (g.chance(50)) { m.cpu.jump(loop_at); m.simulate(1 + g.draw(g.chance(50) ? 20 : 3000), 0); }
		const uint64_t need = body + 2;
		const uint64_t lim = endless ? 1 + g.draw(300) : g.chance(40) ? need + g.draw(20) : g.chance(30) && need > 2 ? 1 + g.draw(need - 2) : 100000;
		plan += fmt(" %zu arguments, limit %lu%s;", args.size(), (unsigned long)lim, endless ? ", endless" : "");
		g.nontrivial(mix(hash_bytes(plan.data(), plan.size()), pad));
		memset(arena(m) + im.data_va, 0, 0x100);
		for (int i = 4; i < 12; i++) m.cpu.reg(i) = 0x1111 * i;
		m.cpu.reg(3) = g.u64();
		long got = 0;
		Capture cap;
		std::string err;
		int type = -1;
		try { got = dm.vmcall(endless ? loop_at : im.code_va, lim, args); }
		catch (const MachineException& e) { type = e.type(); err = e.what(); }
		catch (const std::exception& e) { type = 100; err = e.what(); }
		cap.end();
		const std::string where = fmt("call %u of%s function of %zu instructions: ", k + 1, plan.c_str(), body);
		if (no_exit) { if (type == -1) fail("call:noexit", where + "there is no exit function, and it is called all the same"); g.label("no exit function"); return; }
		if (type != -1) fail("call:exception", where + fmt("exception %d (%s)", type, err.c_str()));
		if (endless || lim < need) {
			g.label("limit reached");
			if (m.stopped()) fail("call:stopped", where + "it says that the program stopped");
			if (!m.instruction_limit_reached()) fail("call:limit", where + "instruction_limit_reached() is false");
			continue;
		}
		g.label("returned");
		if (!m.stopped()) fail("call:running", where + fmt("it did not run to the end; the counter is %lu", (unsigned long)m.instruction_counter()));
		if (got != ret) fail("call:result", where + fmt("it returned %ld, the function returns %d", got, ret));
		const uint64_t* seen = (const uint64_t*)(arena(m) + im.data_va);
		if (seen[9] != exit_at) fail("call:ra", where + fmt("the return address is 0x%lx, the exit function is at 0x%lx", (unsigned long)seen[9], (unsigned long)exit_at));
		if (seen[8] & 15) fail("call:align", where + fmt("the stack pointer 0x%lx is not aligned", (unsigned long)seen[8]));
		if (seen[8] > m.memory.stack_address()) fail("call:sp", where + "the stack pointer is above the stack");
		for (size_t i = 0; i < args.size(); i++) {
			const uint64_t a = seen[i];
			if (a < seen[8] || a + args[i].size() + 1 > m.memory.stack_address()) fail("call:arg-place", where + fmt("argument %zu is at 0x%lx, outside of the stack 0x%lx to 0x%lx", i + 1, (unsigned long)a, (unsigned long)seen[8], (unsigned long)m.memory.stack_address()));
			if (strcmp((const char*)arena(m) + a, args[i].c_str()) != 0) fail("call:arg", where + fmt("argument %zu is another text", i + 1));
		}
	}
	if (g.want_sample()) g.sample(plan);
}

// Comparing with the output of a disassembler
PROP(debug_compare)
{
	Program p;
	Opts o; o.max_len = 60; o.two_segments = false;
	p = make(g, o);
	Session s(g, p);
	Machine& m = *s.m;
	// what objdump would print, with some lines changed
	const std::string path = fmt("/tmp/pbt-objdump-%d.txt", (int)getpid());
	std::string listing_ = "\nprogram:     file format elf64-loongarch\n\n\nDisassembly of section .text:\n\n";
	std::vector<uint64_t> wrong;
	size_t total = 0;
	for (size_t i = 0; i < p.words.size(); i++) {
		const uint64_t pc = p.lay.code + i * 4;
		if (g.chance(5)) listing_ += fmt("\n%016lx <f%zu>:\n", (unsigned long)pc, i);
		if (g.chance(10)) continue;
		std::string t = text_at(m, pc, p.words[i]);
		total++;
		if (t.find('#') == std::string::npos && t.find(',') != std::string::npos && g.chance(10)) { t += g.pick({"\t# 0x1234", " # 4010 <f+0x10>"}); if (tokens(t).size() < 4) { t = t.substr(0, t.find('#')); while (isspace((unsigned char)t.back())) t.pop_back(); } }
		else if (g.chance(8)) {
			wrong.push_back(pc);
			if (t.find('#') != std::string::npos || g.chance(50)) t = "x" + t;                                     // another mnemonic
			else if (t.find(',') != std::string::npos) t.insert(t.find(','), "9");  // another operand
			else t += g.chance(50) ? ", $r1" : "y";
		}
		listing_ += fmt("    %lx:\t%08x \t%s\n", (unsigned long)pc, p.words[i], t.c_str());
	}
	FILE* f = fopen(path.c_str(), "w");
	fwrite(listing_.data(), 1, listing_.size(), f);
	fclose(f);
	DebugMachine dm(m);
	dm.objdump_path = "cat " + path + " #";
	dm.filename = "program";
	dm.verbose_instructions = g.chance(50);
	g.nontrivial(hash_bytes(listing_.data(), listing_.size()));
	if (!wrong.empty()) g.label("differences");
	const uint64_t pc0 = p.lay.code + 4 * g.draw(p.words.size() - 1);
	m.cpu.jump(pc0);
	ref::CPU before = p.init;
	Capture cap;
	Got got = attempt([&] { dm.decode_and_compare(); return true; }, &m);
	const std::string out = cap.end();
	unlink(path.c_str());
	auto after = [&](const char* key) -> long { const size_t i = out.rfind(key); return i == std::string::npos ? -1 : strtol(out.c_str() + i + strlen(key), nullptr, 10); };
	if (got.threw) fail("compare:exception", fmt("exception %d (%s)", got.type, got.what.c_str()));
	if (after("Total instructions decoded:") != (long)total) fail("compare:total", fmt("%ld instructions compared, %zu are listed\n", after("Total instructions decoded:"), total) + out.substr(0, 2000));
	if (after("Mismatches found:") != (long)wrong.size()) fail("compare:count", fmt("%ld differences found, there are %zu: ", after("Mismatches found:"), wrong.size()) + [&] { std::string l; for (uint64_t pc : wrong) { l += fmt(" %lx:", (unsigned long)pc); size_t i = listing_.find(fmt("    %lx:", (unsigned long)pc)); l += listing_.substr(i, listing_.find('\n', i) - i) + " (" + text_at(m, pc, p.words[(pc - p.lay.code) / 4]) + ");"; } return l + "\n" + out.substr(out.find("MISMATCH") == std::string::npos ? 0 : out.find("MISMATCH"), 400); }());
	for (uint64_t pc : wrong) if (out.find(fmt("MISMATCH at PC=0x%lx ", (unsigned long)pc)) == std::string::npos) fail("compare:where", fmt("the difference at 0x%lx is not reported", (unsigned long)pc));
	if (m.cpu.pc() != pc0) fail("compare:pc", "comparing moved the program counter");
	Mem mm; mm.data.assign(arena(m), arena(m) + p.lay.size);
	memset(&mm.data[0], 0, p.lay.code);
	before.pc = pc0;
	std::string kind, d = compare(m, before, kind, false);
	if (!d.empty()) fail("compare:state", "comparing changed the machine: " + d);
	if (g.want_sample()) g.sample(fmt("%zu instructions listed, %zu of them differently", total, wrong.size()));
}
