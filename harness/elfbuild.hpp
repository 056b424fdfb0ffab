// Minimal executables built in memory.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <elf.h>
#include <string>
#include <vector>

namespace elfimg {
struct Sym { std::string name; uint64_t addr, size; };
struct Image {
	uint64_t code_va = 0x10000, data_va = 0x40000, data_size = 0x4000;
	std::vector<uint32_t> code;
	std::string data;              // initial contents, the rest is zero
	std::vector<Sym> syms;
	uint64_t entry = 0;
};
// a code segment and a writable data segment, with a symbol table
inline std::string build(const Image& im)
{
	std::string f(64 + 2 * 56, 0);
	auto pad = [&](size_t a) { f.resize((f.size() + a - 1) / a * a, 0); };
	pad(16);
	const uint64_t o_code = f.size();
	f.append((const char*)im.code.data(), im.code.size() * 4);
	pad(16);
	const uint64_t o_data = f.size();
	f += im.data;
	Elf64_Phdr ph[2] = {};
	ph[0].p_type = PT_LOAD; ph[0].p_flags = PF_R | PF_X; ph[0].p_offset = o_code; ph[0].p_vaddr = ph[0].p_paddr = im.code_va; ph[0].p_filesz = ph[0].p_memsz = im.code.size() * 4; ph[0].p_align = 16;
	ph[1].p_type = PT_LOAD; ph[1].p_flags = PF_R | PF_W; ph[1].p_offset = o_data; ph[1].p_vaddr = ph[1].p_paddr = im.data_va; ph[1].p_filesz = im.data.size(); ph[1].p_memsz = std::max<uint64_t>(im.data_size, im.data.size()); ph[1].p_align = 16;
	std::string str(1, 0);
	std::vector<Elf64_Sym> st(1);
	memset(&st[0], 0, sizeof st[0]);
	for (auto& s : im.syms) {
		Elf64_Sym e{};
		e.st_name = str.size(); str += s.name; str += '\0';
		e.st_info = 0x12; e.st_shndx = 1; e.st_value = s.addr; e.st_size = s.size;
		st.push_back(e);
	}
	const std::string shstr("\0.symtab\0.strtab\0.shstrtab\0", 27);
	pad(8); const uint64_t o_sym = f.size(); f.append((const char*)st.data(), st.size() * sizeof st[0]);
	const uint64_t o_str = f.size(); f += str;
	const uint64_t o_shstr = f.size(); f += shstr;
	pad(8); const uint64_t o_sh = f.size();
	Elf64_Shdr sh[4] = {};
	sh[1].sh_name = 1; sh[1].sh_type = SHT_SYMTAB; sh[1].sh_offset = o_sym; sh[1].sh_size = st.size() * sizeof st[0]; sh[1].sh_link = 2; sh[1].sh_entsize = sizeof st[0];
	sh[2].sh_name = 9; sh[2].sh_type = SHT_STRTAB; sh[2].sh_offset = o_str; sh[2].sh_size = str.size();
	sh[3].sh_name = 17; sh[3].sh_type = SHT_STRTAB; sh[3].sh_offset = o_shstr; sh[3].sh_size = shstr.size();
	f.append((const char*)sh, sizeof sh);
	Elf64_Ehdr eh{};
	memcpy(eh.e_ident, "\x7f" "ELF\2\1\1", 7);
	eh.e_type = ET_EXEC; eh.e_machine = 258; eh.e_version = 1; eh.e_entry = im.entry ? im.entry : im.code_va;
	eh.e_phoff = 64; eh.e_ehsize = 64; eh.e_phentsize = 56; eh.e_phnum = 2; eh.e_shentsize = 64; eh.e_shoff = o_sh; eh.e_shnum = 4; eh.e_shstrndx = 3;
	memcpy(&f[0], &eh, 64);
	memcpy(&f[64], ph, sizeof ph);
	return f;
}
} // elfimg
