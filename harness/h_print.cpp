// Decode identity and disassembly, against the GNU toolchain's disassembler.
#include "vm.hpp"
#include "isagen.hpp"
#include <map>
#include <unistd.h>
using namespace pbt;
using namespace ref;
using namespace vm;

namespace {
struct Parsed { std::string mn; std::vector<std::string> ops; };

Parsed parse(std::string s)
{
	if (auto p = s.find('#'); p != s.npos) s.resize(p);
	Parsed r; std::string cur; bool first = true;
	auto flush = [&]() {
		if (cur.empty()) return;
		if (first) { r.mn = cur; first = false; cur.clear(); return; }
		if (cur[0] != '$') {
			char* e; long long v = cur[0] == '-' ? -(long long)strtoull(cur.c_str() + 1, &e, 0) : (long long)strtoull(cur.c_str(), &e, 0);
			if (*e == 0) cur = std::to_string(v);
		}
		r.ops.push_back(cur); cur.clear();
	};
	for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == ',' || ch == '\n') flush(); else cur += ch; }
	flush();
	return r;
}

// The aliases the library prints, rewritten to the instruction they stand for
void unalias(Parsed& p, uint32_t w)
{
	auto reg = [&](unsigned i) { return i < p.ops.size() ? p.ops[i] : std::string(); };
	const std::string z = "$zero";
	if (p.mn == "nop" && p.ops.empty() && (w >> 22) == 0x00D && RD(w) == 0) { p.mn = "andi"; p.ops.clear(); p.ops = {"?nop"}; }
	else if (p.mn == "li.w" && p.ops.size() == 2 && (w >> 22) == 0x00E) { p.mn = "ori"; p.ops = {reg(0), z, reg(1)}; }
	else if (p.mn == "li.w" && p.ops.size() == 2) { p.mn = "addi.w"; p.ops = {reg(0), z, reg(1)}; }
	else if (p.mn == "li.d" && p.ops.size() == 2) { p.mn = "addi.d"; p.ops = {reg(0), z, reg(1)}; }
	else if (p.mn == "move" && p.ops.size() == 2) { p.mn = "or"; p.ops = {reg(0), reg(1), z}; }
	else if (p.mn == "ret" && p.ops.empty()) { p.mn = "jirl"; p.ops = {z, "$ra", "0"}; }
	else if (p.mn == "jr" && p.ops.size() == 1) { p.mn = "jirl"; p.ops = {z, reg(0), "0"}; }
	else if (p.mn == "blez" && p.ops.size() == 2) { p.mn = "bge"; p.ops = {z, reg(0), reg(1)}; }
	else if (p.mn == "bgez" && p.ops.size() == 2) { p.mn = "bge"; p.ops = {reg(0), z, reg(1)}; }
	else if (p.mn == "bltz" && p.ops.size() == 2) { p.mn = "blt"; p.ops = {reg(0), z, reg(1)}; }
	else if (p.mn == "bgtz" && p.ops.size() == 2) { p.mn = "blt"; p.ops = {z, reg(0), reg(1)}; }
}
std::string show(const Parsed& p) { std::string s = p.mn; for (auto& o : p.ops) s += " " + o; return s; }

std::vector<std::string> objdump(const std::vector<uint32_t>& words)
{
	char path[] = "/tmp/pbt_printXXXXXX";
	int fd = mkstemp(path);
	if (fd < 0 || write(fd, words.data(), words.size() * 4) != ssize_t(words.size() * 4)) { fprintf(stderr, "cannot write %s\n", path); _exit(3); }
	close(fd);
	std::string cmd = fmt("loongarch64-linux-gnu-objdump -D -z -b binary -m loongarch64 -M no-aliases %s", path);
	FILE* f = popen(cmd.c_str(), "r");
	std::vector<std::string> out; char line[512];
	while (f && fgets(line, sizeof line, f)) {
		// "   0:\t00108420 \tadd.d ..."
		char* t = strchr(line, '\t'); if (!t || line[0] != ' ') continue;
		char* t2 = strchr(t + 1, '\t'); if (!t2) continue;
		out.push_back(t2 + 1);
	}
	if (f) pclose(f);
	unlink(path);
	if (out.size() != words.size()) { fprintf(stderr, "objdump gave %zu lines for %zu words\n", out.size(), words.size()); _exit(3); }
	return out;
}
bool unknown(const std::string& od) { return od.compare(0, 5, ".word") == 0 || od.find("(bad)") != od.npos; }

const Insn* table_find(uint32_t w) { for (auto& i : table()) if ((w & i.mask) == i.match) return &i; return nullptr; }

uint32_t word(Gen& g)
{
	const auto& T = table();
	const uint64_t kind = g.draw(9);
	const Insn& in = T[g.index(T.size())];
	uint32_t w = in.match | (g.u32() & ~in.mask);
	if (kind >= 4 && kind <= 7) for (uint64_t n = g.range(1, 3), i = 0; i < n; i++) w ^= 1u << g.draw(31);   // near misses
	if (kind == 8) w = in.match | uint32_t(g.raw64() & ~uint64_t(in.mask));
	if (kind == 9) w = uint32_t(g.raw64());
	return w;
}
}

PROP(print_same)
{
	static std::unique_ptr<Machine> M;
	if (!M) M = bare();
	M->cpu.registers().pc = CODE;
	std::vector<uint32_t> words;
	for (uint64_t n = g.range(1, 200), i = 0; i < n; i++) words.push_back(word(g));
	const auto od = objdump(words);
	uint64_t h = 0; size_t compared = 0;
	for (size_t i = 0; i < words.size(); i++) {
		const uint32_t w = words[i];
		const std::string text = M->cpu.to_string(loongarch::la_instruction{w});
		Parsed ours = parse(text);
		const bool none = text.compare(0, 6, "UNIMPL") == 0 || ours.mn.empty();
		const Insn* in = table_find(w);
		if (unknown(od[i])) {
			if (!none) fail("unknown:" + ours.mn, fmt("word %08x is no LoongArch instruction, but is disassembled as '%s'", w, text.c_str()));
			g.label("~reserved word"); continue;
		}
		Parsed theirs = parse(od[i]);
		if (none) {
			if (in && isagen::implemented().count(in->name)) fail("missing:" + theirs.mn, fmt("word %08x is '%s', but is disassembled as '%s'", w, show(theirs).c_str(), text.c_str()));
			g.label("~not implemented"); continue;
		}
		unalias(ours, w);
		if (ours.mn == "andi" && ours.ops.size() == 1 && ours.ops[0] == "?nop") { if (theirs.mn == "andi" && !theirs.ops.empty() && (theirs.ops[0] == "$zero")) continue; }
		if (ours.mn != theirs.mn) fail("mnemonic:" + theirs.mn, fmt("word %08x is '%s', but is disassembled as '%s'", w, show(theirs).c_str(), text.c_str()));
		if (ours.ops != theirs.ops) fail("operands:" + theirs.mn, fmt("word %08x is '%s', but is disassembled as '%s'", w, show(theirs).c_str(), text.c_str()));
		h = mix(h, w); compared++;
		g.label(theirs.mn.c_str());
		if (g.want_sample() && compared == 1) g.sample(fmt("%08x '%s' = toolchain '%s'", w, text.c_str(), show(theirs).c_str()));
	}
	if (compared) g.nontrivial(h);
}

// Words which are not instructions of the library are refused, precisely
PROP(decode_reject)
{
	std::vector<uint32_t> words;
	for (uint64_t n = g.range(1, 120), i = 0; i < n; i++) {
		uint32_t w = word(g);
		const Insn* in = table_find(w);
		if (in && isagen::implemented().count(in->name)) continue;
		words.push_back(w);
	}
	if (words.empty()) { g.label("all implemented"); return; }
	const auto od = objdump(words);
	static std::unique_ptr<Machine> M;
	uint64_t h = 0; size_t tested = 0;
	const unsigned prefix = g.draw(3);
	const uint64_t bgs = g.raw64();
	for (size_t i = 0; i < words.size(); i++) {
		const uint32_t w = words[i];
		if (!unknown(od[i])) {
			// a real instruction, not modelled by the reference: what it does is not judged here,
			// but a library that does not print it does not execute it as another one
			if (M && M->cpu.to_string(loongarch::la_instruction{w}).compare(0, 6, "UNIMPL") != 0) { g.label("~instruction outside the reference"); continue; }
			if (!M) continue;
			g.label("~real instruction, not implemented");
		} else g.label("~reserved word");
		for (Mode mode : {STEP, FAST, INACC}) {
			if (!M) M = bare();
			Machine& m = *M;
			m.memory.evict_execute_segments();
			ref::CPU c; Mem mem; mem.data.resize(SIZE); mem.rd_lo = CODE; mem.wr_lo = DATA; c.mem = &mem;
			uint64_t s = bgs + i;
			for (int r = 1; r < 32; r++) c.x[r] = DATA + isagen::bgmix(s) % 0x4000;
			for (int r = 0; r < 32; r++) for (auto& b : c.v[r].b) b = uint8_t(isagen::bgmix(s));
			for (uint64_t a = DATA; a < DATA + 0x4000; a += 8) { uint64_t v = isagen::bgmix(s); memcpy(&mem.data[a], &v, 8); }
			for (uint64_t a = CODE; a < CODE + 0x200; a += 4) memcpy(&mem.data[a], &STOP_WORD, 4);
			const uint64_t start = CODE + 0x40;
			c.pc = start;
			for (unsigned k = 0; k < prefix; k++) { const uint32_t add = 0x02c00000 | (k + 1) << 10 | (4 + k) << 5 | (4 + k); memcpy(&mem.data[start + 4 * k], &add, 4); }
			const uint64_t at = start + 4 * prefix;
			memcpy(&mem.data[at], &w, 4);
			load_state(m, c);
			m.set_instruction_counter(0);
			for (unsigned k = 0; k < prefix; k++) c.x[4 + k] += k + 1;
			int et = -1; std::string what;
			try {
				if (mode == STEP) for (unsigned k = 0; k <= prefix; k++) m.cpu.step_one();
				else {
					m.cpu.init_execute_area(&mem.data[CODE], CODE, 0x200);
					m.cpu.jump(start);
					if (mode == FAST) m.simulate(100000, 0); else m.cpu.simulate_inaccurate(start);
				}
			} catch (const MachineException& e) { et = e.type(); what = e.what(); }
			const std::string d = fmt("%s: word %08x (toolchain: %s) after %u instructions ", mode_name(mode), w, show(parse(od[i])).c_str(), prefix);
			auto sig = [&](const char* k) { return fmt("%s:%s", mode_name(mode), k); };
			if (et < 0) fail(sig("executed"), d + "was executed without an exception, as '" + m.cpu.to_string(loongarch::la_instruction{w}) + "'");
			if (et != loongarch::UNIMPLEMENTED_INSTRUCTION && et != loongarch::ILLEGAL_OPCODE && et != loongarch::ILLEGAL_OPERATION)
				fail(sig("exception"), d + fmt("raised exception type %d (%s)", et, what.c_str()));
			c.pc = at;
			std::string kind, diff = compare(m, c, kind, true, mode == STEP);
			if (!diff.empty()) fail(sig(kind.c_str()), d + "was refused, but the state afterwards differs: " + diff);
		}
		h = mix(h, w); tested++;
		if (g.want_sample() && tested == 1) g.sample(fmt("%08x (toolchain: %s) refused in all three modes with the state unchanged", w, show(parse(od[i])).c_str()));
	}
	if (tested) g.nontrivial(h);
}
