// ELF loading: generated well-formed files against a model of the image,
// and damaged files against the rule that loading never harms the host.
#include "vm.hpp"
#include <elf.h>
#include <map>
#include <unistd.h>
using namespace pbt;
using namespace vm;
using loongarch::address_t;

namespace {
struct Seg { uint64_t off, va, fsz, msz; uint32_t flags; };
struct SymInfo { std::string name; uint64_t value, size; uint8_t info; };
struct Built {
	std::string file;
	std::vector<Seg> segs;      // PT_LOAD, by address
	std::vector<SymInfo> syms;  // in table order
	uint64_t entry = 0, phoff = 0, shoff = 0;
	unsigned phnum = 0, shnum = 0;
	bool has_text = false; uint64_t text = 0, text_size = 0;
	size_t code_seg = 0; bool with_code = false;
	uint32_t magic = 0;         // value the program leaves in a0
};
uint64_t align_up(uint64_t v, uint64_t a) { return (v + a - 1) / a * a; }

std::string sym_name(Gen& g)
{
	static const char* base[] = {"main", "_start", "f", "g", "_ZN3foo3barEv", "_Z3addii", "malloc", "x", "_ZZZ", "a.b.c"};
	std::string s = base[g.draw(9)];
	if (g.chance(60)) s += std::to_string(g.draw(30));
	if (g.chance(3)) s += std::string(g.draw(6000), 'q');
	return s;
}

Built build(Gen& g)
{
	Built b;
	const unsigned nseg = 1 + g.draw(4);
	// writable segments come last, as linkers lay them out; sometimes one lies in between
	const unsigned first_w = g.draw(nseg);
	b.code_seg = g.draw(nseg - 1);
	const bool with_code = b.with_code = g.chance(85);
	uint64_t va = g.chance(50) ? 0x10000 * g.draw(3) + g.draw(0x40) * 8 : 0x1000 * g.draw(40);
	b.magic = g.draw(0xfff);
	std::vector<std::string> content;
	for (unsigned i = 0; i < nseg; i++) {
		Seg s;
		s.flags = PF_R | (i >= first_w ? PF_W : 0);
		if (g.chance(20)) s.flags |= PF_X;
		s.fsz = g.chance(10) ? 0 : 4 * g.draw(700) + (g.chance(40) ? g.draw(3) : 0);
		s.msz = s.fsz + (g.chance(40) ? g.draw(9000) : 0);
		s.va = va;
		if (i == b.code_seg && with_code) { s.flags |= PF_X; s.fsz = std::max<uint64_t>(s.fsz, 64 + g.draw(20) * 4); s.msz = std::max(s.msz, s.fsz); s.va = align_up(s.va, 4); }
		else if (s.flags & PF_X) s.va = align_up(s.va, 4);
		std::string c(s.fsz, 0);
		uint64_t x = g.draw(0xffff) + 7;
		for (auto& ch : c) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = x >> 56; }
		content.push_back(c);
		b.segs.push_back(s);
		va = s.va + s.msz + (g.chance(40) ? 0 : g.chance(60) ? g.draw(0x100) : 0x1000 * (1 + g.draw(4)));
	}
	if (with_code) {
		// the entry point: ori a0, zero, magic ; stop
		auto& c = content[b.code_seg];
		const Seg& s = b.segs[b.code_seg];
		const uint64_t words = s.fsz / 4;
		uint64_t at = g.draw(words - 4);
		const uint32_t code[2] = {0x03800000u | b.magic << 10 | 4, vm::STOP_WORD};
		memcpy(&c[at * 4], code, 8);
		b.entry = s.va + at * 4;
		b.has_text = g.chance(60);
		if (b.has_text) {
			const uint64_t lo = g.draw(at), hi = at + 2 + g.draw(words - at - 2);
			b.text = s.va + lo * 4; b.text_size = (hi - lo) * 4;
		}
	} else b.entry = g.chance(50) ? 0 : g.u64();
	// symbols
	const bool with_sections = b.has_text || g.chance(70);
	const unsigned nsym = with_sections && g.chance(80) ? g.draw(12) : 0;
	for (unsigned i = 0; i < nsym; i++) {
		SymInfo s;
		s.name = g.chance(5) ? "" : sym_name(g);
		// names that contain each other, as compilers and linkers make them
		if (!b.syms.empty() && g.chance(40)) {
			const std::string& o = b.syms[g.index(b.syms.size())].name;
			switch (g.draw(5)) {
			case 0: s.name = o + g.pick<const char*>({".cold", ".part.0", "@plt", "@@V1", ".", "2", "_"}); break;
			case 1: s.name = g.pick<const char*>({"_", "__", "_ZN", "."}) + o; break;
			case 2: s.name = o.substr(0, o.size() / 2); break;
			case 3: s.name = o.substr(0, o.find_first_of(".@")); break;
			case 4: s.name = o.empty() ? o : o.substr(1); break;
			default: s.name = o; for (auto& ch : s.name) ch = (char)toupper((unsigned char)ch);
			}
		}
		const Seg& sg = b.segs[g.index(b.segs.size())];
		s.value = g.chance(90) ? sg.va + g.draw(sg.msz + 8) : g.u64();
		s.size = g.chance(25) ? 0 : g.chance(90) ? g.draw(200) : g.u64();
		s.info = g.pick({2, 2, 1, 0, 3, 4}) | g.draw(2) << 4;
		b.syms.push_back(s);
	}
	// file layout: header, program headers, contents in random order, sections
	std::string& f = b.file;
	f.assign(sizeof(Elf64_Ehdr), 0);
	const unsigned extra = g.draw(2);
	b.phnum = nseg + extra;
	b.phoff = align_up(f.size() + (g.chance(30) ? g.draw(64) : 0), 8);
	f.resize(b.phoff + b.phnum * sizeof(Elf64_Phdr), 0);
	std::vector<size_t> order(nseg);
	for (size_t i = 0; i < nseg; i++) order[i] = i;
	for (size_t i = nseg; i-- > 1;) std::swap(order[i], order[g.index(i + 1)]);
	const bool map_headers = g.chance(40) && b.segs[0].fsz >= f.size() && !(with_code && b.code_seg == 0);
	for (size_t k : order) {
		if (k == 0 && map_headers) continue;
		f.resize(align_up(f.size() + g.draw(32), 8), 0);
		b.segs[k].off = f.size();
		f += content[k];
	}
	if (map_headers) {
		// the first segment maps the file's own beginning
		b.segs[0].off = 0;
		if (f.size() < b.segs[0].fsz) f.resize(b.segs[0].fsz, 0);
	}
	Elf64_Ehdr eh{};
	memcpy(eh.e_ident, "\x7f" "ELF\2\1\1", 7);
	eh.e_type = ET_EXEC; eh.e_machine = 258; eh.e_version = 1; eh.e_entry = b.entry;
	eh.e_phoff = b.phoff; eh.e_ehsize = sizeof eh; eh.e_phentsize = sizeof(Elf64_Phdr); eh.e_phnum = b.phnum; eh.e_shentsize = sizeof(Elf64_Shdr);
	if (with_sections) {
		std::string shstr("\0.text\0.symtab\0.strtab\0.shstrtab\0.data\0", 39);
		std::string strtab(1, 0);
		std::vector<Elf64_Sym> st(1);
		memset(&st[0], 0, sizeof st[0]);
		for (auto& s : b.syms) {
			Elf64_Sym e{};
			e.st_name = s.name.empty() ? 0 : strtab.size();
			if (!s.name.empty()) { strtab += s.name; strtab += '\0'; }
			e.st_info = s.info; e.st_value = s.value; e.st_size = s.size; e.st_shndx = 1;
			st.push_back(e);
		}
		auto put = [&](const void* p, size_t n) { f.resize(align_up(f.size(), 8), 0); const uint64_t o = f.size(); f.append((const char*)p, n); return o; };
		const uint64_t o_sym = put(st.data(), st.size() * sizeof st[0]), o_str = put(strtab.data(), strtab.size()), o_shstr = put(shstr.data(), shstr.size());
		std::vector<Elf64_Shdr> sh(1);
		memset(&sh[0], 0, sizeof sh[0]);
		auto add = [&](uint32_t name, uint32_t type, uint64_t addr, uint64_t off, uint64_t size, uint32_t link) { Elf64_Shdr h{}; h.sh_name = name; h.sh_type = type; h.sh_addr = addr; h.sh_offset = off; h.sh_size = size; h.sh_link = link; sh.push_back(h); return (uint32_t)sh.size() - 1; };
		if (g.chance(50)) add(33, SHT_PROGBITS, b.segs.back().va, 0, 8, 0);
		if (b.has_text) add(1, SHT_PROGBITS, b.text, b.segs[b.code_seg].off + (b.text - b.segs[b.code_seg].va), b.text_size, 0);
		if (g.chance(50)) { const uint32_t k = sh.size(); add(7, SHT_SYMTAB, 0, o_sym, st.size() * sizeof st[0], k + 1); add(15, SHT_STRTAB, 0, o_str, strtab.size(), 0); }
		else { const uint32_t k = add(15, SHT_STRTAB, 0, o_str, strtab.size(), 0); add(7, g.chance(70) ? SHT_SYMTAB : SHT_DYNSYM, 0, o_sym, st.size() * sizeof st[0], k); }
		eh.e_shstrndx = add(23, SHT_STRTAB, 0, o_shstr, shstr.size(), 0);
		f.resize(align_up(f.size(), 8), 0);
		b.shoff = eh.e_shoff = f.size(); b.shnum = eh.e_shnum = sh.size();
		f.append((const char*)sh.data(), sh.size() * sizeof sh[0]);
	}
	std::vector<Elf64_Phdr> ph;
	for (auto& s : b.segs) { Elf64_Phdr p{}; p.p_type = PT_LOAD; p.p_flags = s.flags; p.p_offset = s.off; p.p_vaddr = p.p_paddr = s.va; p.p_filesz = s.fsz; p.p_memsz = s.msz; p.p_align = 4096; ph.push_back(p); }
	for (unsigned i = 0; i < extra; i++) { Elf64_Phdr p{}; p.p_type = g.pick({PT_NOTE, PT_TLS, PT_GNU_STACK, PT_NULL}); p.p_vaddr = g.u64(); p.p_filesz = g.draw(100); p.p_memsz = g.u64(); p.p_flags = g.draw(7); ph.insert(ph.begin() + g.draw(ph.size()), p); }
	memcpy(&f[0], &eh, sizeof eh);
	memcpy(&f[b.phoff], ph.data(), ph.size() * sizeof ph[0]);
	return b;
}

std::shared_ptr<MachineOptions> pick_options(Gen& g)
{
	auto o = options();
	o->memory_max = 0x100000 + 0x1000 * g.draw(0x300);
	o->stack_size = 0x1000 * (1 + g.draw(64));
	o->brk_size = 0x1000 * g.draw(64);
	o->use_shared_execute_segments = g.chance(30);
	return o;
}
// a copy of the file in exactly-sized heap memory
struct Exact {
	char* p; size_t n;
	explicit Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
	~Exact() { free(p); }
	std::string_view view() const { return {p, n}; }
};
bool faults(const std::function<void()>& f) { try { f(); return false; } catch (const MachineException& e) { return e.type() == loongarch::PROTECTION_FAULT; } }
} // namespace

PROP(elf_load)
{
	Built b = build(g);
	auto o = pick_options(g);
	o->ignore_text_section = g.chance(30);
	std::vector<uint8_t> donated;
	if (g.chance(20)) { donated.assign(o->memory_max + 64 + g.draw(1) * 4096, 0xa5); o->custom_arena_pointer = donated.data(); o->custom_arena_size = donated.size(); g.label("donated arena, used before"); }
	uint64_t lo = ~0ull, hi = 0, wr = ~0ull;
	for (auto& s : b.segs) { lo = std::min(lo, s.va); hi = std::max(hi, s.va + s.msz); if (s.flags & PF_W) wr = std::min(wr, s.va); }
	Exact file(b.file);
	std::string desc = fmt("\n  file of %zu bytes, entry 0x%lx, memory 0x%zx, stack 0x%zx, brk 0x%zx%s%s", b.file.size(), (unsigned long)b.entry, o->memory_max, o->stack_size, o->brk_size, donated.empty() ? "" : ", donated arena", o->ignore_text_section ? ", ignore_text_section" : "");
	for (auto& s : b.segs) desc += fmt("\n  segment 0x%lx: file %lu at 0x%lx, memory %lu, %s%s%s", (unsigned long)s.va, (unsigned long)s.fsz, (unsigned long)s.off, (unsigned long)s.msz, s.flags & PF_R ? "r" : "-", s.flags & PF_W ? "w" : "-", s.flags & PF_X ? "x" : "-");
	if (b.has_text) desc += fmt("\n  .text 0x%lx+0x%lx", (unsigned long)b.text, (unsigned long)b.text_size);
	if (lo >= hi) { g.label("no loadable bytes"); return; }
	std::unique_ptr<Machine> mp;
	try { mp = std::make_unique<Machine>(file.view(), *o); mp->set_options(o); }
	catch (const std::exception& e) {
		const uint64_t need = align_up(hi, 4096) + align_up(o->brk_size, 4096) + o->stack_size;
		if (need > o->memory_max - 64) { g.label("does not fit"); return; }
		fail("rejected", fmt("a well-formed file was rejected: %s", e.what()) + desc);
	}
	Machine& m = *mp;
	g.nontrivial(hash_bytes(b.file.data(), b.file.size(), o->memory_max + o->stack_size));
	g.label(b.has_text ? ".text section" : "no .text section");
	if (m.memory.start_address() != b.entry) fail("entry", fmt("start_address() is 0x%lx", (unsigned long)m.memory.start_address()) + desc);
	if (m.cpu.pc() != b.entry) fail("pc", fmt("pc is 0x%lx", (unsigned long)m.cpu.pc()) + desc);
	// image
	const uint64_t size = m.memory.arena_size();
	if (donated.empty() && size != o->memory_max) fail("size", fmt("memory is 0x%lx bytes", (unsigned long)size) + desc);
	std::vector<uint8_t> img(size, donated.empty() ? 0 : 0xa5);
	if (!donated.empty()) for (auto& s : b.segs) memset(&img[s.va], 0, s.msz);
	for (auto& s : b.segs) memcpy(&img[s.va], &b.file[s.off], s.fsz);
	if (memcmp(arena(m), img.data(), size)) {
		size_t i = 0; while (arena(m)[i] == img[i]) i++;
		fail("image", fmt("byte at 0x%zx is %02x, the file says %02x", i, arena(m)[i], img[i]) + desc);
	}
	// layout of heap and stack
	const uint64_t heap = m.memory.heap_address(), brk = m.memory.brk_address(), sp = m.memory.stack_address(), mm = m.memory.mmap_address();
	if (heap < hi) fail("heap", fmt("heap begins at 0x%lx, inside the program ending at 0x%lx", (unsigned long)heap, (unsigned long)hi) + desc);
	if (brk < heap || sp > size || sp > mm || sp - o->stack_size < brk + o->brk_size || mm > size) fail("layout", fmt("heap 0x%lx brk 0x%lx stack top 0x%lx mmap 0x%lx do not fit together in 0x%lx", (unsigned long)heap, (unsigned long)brk, (unsigned long)sp, (unsigned long)mm, (unsigned long)size) + desc);
	if (m.cpu.reg(3) != sp) fail("sp", fmt("stack pointer 0x%lx, stack top 0x%lx", (unsigned long)m.cpu.reg(3), (unsigned long)sp) + desc);
	if (sp & 15) fail("spalign", fmt("stack top 0x%lx is not 16-byte aligned", (unsigned long)sp) + desc);
	// permissions
	for (auto& s : b.segs) {
		if (!s.msz) continue;
		const uint64_t a = s.va + g.draw(s.msz - 1);
		try { m.memory.read<uint8_t>(a); } catch (const std::exception& e) { fail("unreadable", fmt("cannot read 0x%lx: %s", (unsigned long)a, e.what()) + desc); }
		if (s.flags & PF_W) {
			try { m.memory.write<uint8_t>(a, m.memory.read<uint8_t>(a)); } catch (const std::exception& e) { fail("unwritable", fmt("cannot write 0x%lx: %s", (unsigned long)a, e.what()) + desc); }
		} else if (a < wr) {
			if (!faults([&] { m.memory.write<uint8_t>(a, 1); })) fail("rowrite", fmt("a write to 0x%lx in a read-only segment did not fault", (unsigned long)a) + desc);
		}
	}
	if (lo && !faults([&] { m.memory.read<uint8_t>(lo - 1 - g.draw(lo - 1)); })) fail("below", "memory below the program is readable" + desc);
	for (uint64_t a : {heap, sp - 8, sp - o->stack_size}) {
		if (a + 8 > size) continue;
		try { m.memory.write<uint64_t>(a, 0x1122334455667788); } catch (const std::exception& e) { fail("heapwrite", fmt("cannot write heap/stack at 0x%lx: %s", (unsigned long)a, e.what()) + desc); }
	}
	// executable ranges
	auto executable = [&](uint64_t pc) {
		for (size_t i = 0; i < b.segs.size(); i++) {
			auto& s = b.segs[i];
			if (!(s.flags & PF_X) || s.fsz == 0) continue;
			uint64_t x0 = s.va, x1 = s.va + (s.fsz & ~3ull);
			if (b.has_text && !o->ignore_text_section && b.text >= s.va && b.text + b.text_size <= s.va + s.fsz) { x0 = b.text; x1 = b.text + b.text_size; }
			if (pc >= x0 && pc < x1 && x1 - pc >= 4) return true;
		}
		return false;
	};
	for (int k = 0; k < 6; k++) {
		const Seg& s = b.segs[g.index(b.segs.size())];
		uint64_t pc = (k == 0 && b.has_text ? b.text + (g.chance(50) ? b.text_size : b.text_size - 4) : k == 1 && b.has_text ? b.text - (g.chance(50) ? 4 : 0) : s.va + g.draw(s.msz + 16)) & ~3ull;
		const bool got = !m.memory.exec_segment_for(pc)->empty();
		if (got != executable(pc)) fail("exec", fmt("0x%lx is %sexecutable", (unsigned long)pc, got ? "" : "not ") + desc);
	}
	// program headers visible to the program
	const Seg* hs = nullptr;
	for (auto& s : b.segs) if (b.phoff >= s.off && b.phoff + b.phnum * 56 <= s.off + s.fsz) { hs = &s; break; }
	if (hs) {
		g.label("program headers in memory");
		const uint64_t a = m.memory.elf_phdr_addr();
		if (a > size - b.phnum * 56 || memcmp(arena(m) + a, &b.file[b.phoff], b.phnum * 56)) fail("phdr", fmt("elf_phdr_addr() 0x%lx does not hold the program headers (loaded at 0x%lx)", (unsigned long)a, (unsigned long)(hs->va + b.phoff - hs->off)) + desc);
	}
	if (m.memory.elf_phnum() != b.phnum || m.memory.elf_phentsize() != 56) fail("phnum", "program header count or size" + desc);
	// run it
	const Seg& cs = b.segs[b.code_seg];
	if (b.with_code && executable(b.entry) && (cs.flags & PF_X)) {
		g.label("~program ran");
		try {
			const bool done = m.simulate(1000, 0);
			if (!done || m.cpu.reg(4) != b.magic) fail("run", fmt("a0 is 0x%lx, expected 0x%x", (unsigned long)m.cpu.reg(4), b.magic) + desc);
		} catch (const MachineException& e) { fail("runexc", fmt("running it raised: %s (0x%lx)", e.what(), (unsigned long)e.data()) + desc); }
	}
	if (g.want_sample()) g.sample("loaded exactly:" + desc);
}

// Symbol lookup and backtraces on generated symbol tables
PROP(elf_symbols)
{
	Built b = build(g);
	auto o = options();
	o->memory_max = 0x400000; o->stack_size = 0x4000; o->brk_size = 0x1000;
	Exact file(b.file);
	std::unique_ptr<Machine> mp;
	try { mp = std::make_unique<Machine>(file.view(), *o); mp->set_options(o); } catch (const std::exception&) { g.label("not loadable"); return; }
	Machine& m = *mp;
	std::vector<SymInfo> want;
	if (b.shnum) for (auto& s : b.syms) { const unsigned t = s.info & 15; if ((t == 2 || t == 1) && s.value && !s.name.empty()) want.push_back(s); }
	std::string desc;
	for (auto& s : want) desc += fmt("\n  %s 0x%lx+0x%lx", s.name.substr(0, 40).c_str(), (unsigned long)s.value, (unsigned long)s.size);
	if (want.size() >= 2) g.nontrivial(hash_bytes(desc.data(), desc.size()));
	for (auto& s : want) {
		uint64_t first = 0;
		for (auto& t : want) if (t.name == s.name) { first = t.value; break; }
		if (m.address_of(s.name) != first) fail("address_of", fmt("address_of(%s) is 0x%lx, the file says 0x%lx", s.name.substr(0, 60).c_str(), (unsigned long)m.address_of(s.name), (unsigned long)first) + desc);
	}
	std::vector<std::string> others = {"", "nope", "mai", "main0x"};
	for (auto& s : want) for (const std::string& n : {s.name + ".cold", s.name + "@plt", s.name.substr(0, s.name.find_first_of(".@_")), s.name.substr(0, s.name.size() - 1), s.name.substr(1), "_" + s.name, s.name + " "}) others.push_back(n);
	for (auto& n : others) if (m.address_of(n) != 0) { bool known = false; for (auto& t : want) known |= t.name == n; if (!known) fail("address_of_unknown", fmt("address_of(\"%s\") is 0x%lx, no symbol has this name", n.substr(0, 60).c_str(), (unsigned long)m.address_of(n)) + desc); }
	for (int k = 0; k < 8; k++) {
		uint64_t a = g.u64();
		if (!want.empty() && g.chance(85)) { auto& s = want[g.index(want.size())]; a = s.value + (g.chance(70) ? g.draw(s.size < 300 ? s.size + 4 : 300) : -(uint64_t)g.draw(8)); }
		const auto* s = m.memory.lookup_symbol(a);
		const SymInfo* in = nullptr; uint64_t best = 0; bool any = false;
		for (auto& t : want) {
			if (a >= t.value && a - t.value < t.size) { in = &t; break; }
			if (t.value <= a) { any = true; best = std::max(best, t.value); }
		}
		if (in) {
			// any symbol that covers the address is right
			if (!s || !(a >= s->address && a - s->address < s->size)) fail("lookup", fmt("lookup_symbol(0x%lx) is %s, but %s covers it", (unsigned long)a, s ? s->name.substr(0, 60).c_str() : "none", in->name.substr(0, 60).c_str()) + desc);
		} else if (any) {
			if (!s || s->address != best) fail("lookup_near", fmt("lookup_symbol(0x%lx) is %s, the closest symbol before it is at 0x%lx", (unsigned long)a, s ? s->name.substr(0, 60).c_str() : "none", (unsigned long)best) + desc);
		} else if (s) fail("lookup_none", fmt("lookup_symbol(0x%lx) is %s, but no symbol lies before it", (unsigned long)a, s->name.substr(0, 60).c_str()) + desc);
		if (s) {
			bool found = false;
			for (auto& t : want) found |= t.name == s->name && t.value == s->address && t.size == s->size;
			if (!found) fail("lookup_content", fmt("lookup_symbol(0x%lx) returned %s 0x%lx+0x%lx, which is not in the file", (unsigned long)a, s->name.substr(0, 60).c_str(), (unsigned long)s->address, (unsigned long)s->size) + desc);
		}
	}
	// a backtrace never fails, starts at the given address and follows the return address
	uint64_t pc = want.empty() || g.chance(20) ? g.u64() : want[g.index(want.size())].value;
	if (pc == 0) pc = 4;
	uint64_t ra = want.empty() || g.chance(30) ? g.u64() : want[g.index(want.size())].value + g.draw(3);
	m.cpu.registers().get(1) = ra;
	m.cpu.registers().get(3) = g.chance(60) ? m.memory.stack_address() - 8 * g.draw(20) : g.u64();
	std::vector<uint64_t> st;
	for (int k = 0; k < 20; k++) { uint64_t v = g.chance(20) ? 0 : want.empty() || g.chance(50) ? g.u64() : want[g.index(want.size())].value; st.push_back(v); m.memory.write<uint64_t>(m.memory.stack_address() - 8 * (k + 1), v); }
	std::string bt;
	try { bt = m.backtrace(pc); } catch (const std::exception& e) { fail("backtrace:exc", fmt("backtrace() raised %s", e.what()) + desc); }
	if (bt.find(fmt("%016lx", (unsigned long)pc)) == std::string::npos) fail("backtrace:pc", "backtrace does not name the program counter:\n" + bt.substr(0, 300) + desc);
	if (ra && bt.find(fmt("%016lx", (unsigned long)ra)) == std::string::npos) fail("backtrace:ra", "backtrace does not name the return address:\n" + bt.substr(0, 300) + desc);
	size_t lines = 0; for (char c : bt) lines += c == '\n';
	if (lines > 70) fail("backtrace:long", fmt("backtrace of %zu lines", lines) + desc);
	for (char c : bt) if ((unsigned char)c >= 0x80 || (c < 32 && c != '\n')) fail("backtrace:junk", "backtrace contains bytes that come from no symbol name" + desc);
	if (g.want_sample()) g.sample(fmt("%zu symbols; 8 address lookups and a backtrace agree with the table", want.size()) + desc.substr(0, 300));
}

// Damaged files: rejected with an exception or loaded, never harmful
PROP(elf_robust)
{
	Built b = build(g);
	std::string f = b.file;
	static const uint64_t nasty[] = {0, 1, 3, 4, 7, 8, 0x37, 0x38, 0x39, 0xff, 0x100, 0x101, 0xfff, 0x1000, 0x7fff, 0xffff, 0x10000, 0xfffff, 0x100000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
		0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffff0000, 0xfffffffffffff000, 0xffffffffffffffc0, 0xffffffffffffffff};
	const unsigned n = g.draw(6);
	std::string story;
	auto value = [&]() -> uint64_t {
		switch (g.draw(4)) {
		case 0: return nasty[g.index(sizeof nasty / 8)];
		case 1: return f.size() - g.draw(80) + g.draw(40);
		case 2: return nasty[g.index(sizeof nasty / 8)] - f.size();
		case 3: return b.segs[g.index(b.segs.size())].va + g.draw(64);
		default: return g.raw64();
		}
	};
	auto poke = [&](uint64_t off, unsigned w, uint64_t v) { if (off + w <= f.size()) { memcpy(&f[off], &v, w); story += fmt("\n  %u bytes at 0x%lx := 0x%lx", w, (unsigned long)off, (unsigned long)v); } };
	for (unsigned i = 0; i < n; i++) {
		switch (g.weighted({25, 30, 30, 10, 10, 6})) {
		case 0: { static const unsigned o[][2] = {{24, 8}, {32, 8}, {40, 8}, {54, 2}, {56, 2}, {58, 2}, {60, 2}, {62, 2}, {18, 2}, {4, 1}, {16, 2}}; auto& x = o[g.index(11)]; poke(x[0], x[1], value()); break; }
		case 1: { static const unsigned o[][2] = {{0, 4}, {4, 4}, {8, 8}, {16, 8}, {32, 8}, {40, 8}}; auto& x = o[g.index(6)]; poke(b.phoff + 56 * g.index(b.phnum) + x[0], x[1], x[0] == 0 ? g.draw(7) : x[0] == 4 ? g.draw(7) : value()); break; }
		case 2: if (b.shnum) { static const unsigned o[][2] = {{0, 4}, {4, 4}, {16, 8}, {24, 8}, {32, 8}, {40, 4}}; auto& x = o[g.index(6)]; poke(b.shoff + 64 * g.index(b.shnum) + x[0], x[1], x[0] == 4 ? g.draw(11) : x[0] == 0 ? g.draw(40) : value()); } break;
		case 3: poke(g.draw(f.size()), 1, g.draw(255)); break;
		case 4: { const uint64_t k = g.chance(50) ? g.draw(f.size()) : f.size() - std::min<uint64_t>(f.size(), g.draw(200)); f.resize(k); story += fmt("\n  cut to %lu bytes", (unsigned long)k); break; }
		default: poke(g.draw(f.size()) & ~7ull, 8, value()); break;
		}
	}
	auto o = pick_options(g);
	if (g.chance(10)) { o->memory_max = g.pick({(size_t)0, (size_t)1, (size_t)4095, (size_t)0x10000}); }
	if (g.chance(6)) { o->stack_size = value(); story += fmt("\n  stack size 0x%zx", o->stack_size); }
	if (g.chance(6)) { o->brk_size = value(); story += fmt("\n  brk size 0x%zx", o->brk_size); }
	std::vector<uint8_t> donated;
	if (g.chance(10)) { donated.resize(g.draw(0x200000)); o->custom_arena_pointer = donated.data(); o->custom_arena_size = donated.size(); }
	Exact file(f);
	auto pages = [] { long v = 0; FILE* p = fopen("/proc/self/statm", "r"); if (p) { if (fscanf(p, "%ld", &v) != 1) v = 0; fclose(p); } return v; };
	static unsigned warm = 0;
	const long before = pages();
	bool loaded = false;
	g.nontrivial(hash_bytes(f.data(), f.size(), o->memory_max));
	try {
		Machine m{file.view(), *o};
		m.set_options(o);
		loaded = true;
		g.label("~loaded");
		(void)m.address_of("main"); (void)m.address_of("");
		for (int k = 0; k < 3; k++) { const uint64_t a = value(); (void)m.memory.lookup_symbol(a); try { (void)m.memory.memstring(a, g.draw(5000)); (void)m.memory.read<uint64_t>(a); } catch (const MachineException&) {} }
		(void)m.backtrace(g.chance(50) ? 0 : value());
		try { m.setup_linux({"prog", "arg"}, {"A=B"}); } catch (const MachineException&) { g.label("setup_linux refused"); }
		try { m.simulate(3000, 0); g.label("ran"); } catch (const MachineException&) { g.label("ran into an exception"); }
	} catch (const MachineException& e) {
		g.label(loaded ? "exception after loading" : "rejected");
	} catch (const std::exception& e) {
		fail(fmt("exc:%s", e.what()), fmt("%s raised %s, which is not a machine exception", loaded ? "using" : "loading", e.what()) + story);
	}
	const long grown = pages() - before;
	if (warm++ > 50 && grown * 4096 > 0x100000 - 0x2000) fail("leak", fmt("memory grew by %ld pages although the machine is gone (loaded: %d)", grown, loaded) + story);
	if (g.want_sample()) g.sample(fmt("%u damages, %s", n, loaded ? "loaded" : "rejected") + story);
}
