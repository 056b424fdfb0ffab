// Guest memory that the host provides, and resetting guest memory.
#include "prog.hpp"
#include "elfimg.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
constexpr size_t OVER = 64;   // bytes after the end of guest memory that belong to the arena

// A buffer of the host with recognisable bytes before and after it
struct Buffer {
	enum Kind { HEAP, ANON, SHARED } kind;
	uint8_t* base = nullptr;
	size_t total = 0, off = 0, size = 0;
	static constexpr size_t GUARD = 512;
	Buffer(Kind k, size_t offset, size_t n) : kind(k), off(GUARD + offset), size(n)
	{
		total = GUARD + offset + n + GUARD;
		if (k == HEAP) base = (uint8_t*)aligned_alloc(4096, (total + 4095) & ~size_t(4095));
		else if (k == ANON) base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		else {
			const int fd = memfd_create("arena", 0);
			if (fd < 0 || ftruncate(fd, total)) { perror("memfd"); abort(); }
			base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
		}
		if (!base || base == MAP_FAILED) { perror("arena buffer"); abort(); }
		for (size_t i = 0; i < total; i++) if (i < off || i >= off + size) base[i] = pattern(i);
		memset(base + off, 0, size);
	}
	~Buffer() { if (kind == HEAP) free(base); else munmap(base, total); }
	Buffer(const Buffer&) = delete;
	uint8_t* ptr() { return base + off; }
	static uint8_t pattern(size_t i) { return (uint8_t)(i * 167 + 13); }
	// "" or a description of the first byte outside the buffer that changed
	std::string outside() const
	{
		for (size_t i = 0; i < off; i++) if (base[i] != pattern(i)) return fmt("the byte %zu before the donated memory was changed", off - i);
		for (size_t i = off + size; i < total; i++) if (base[i] != pattern(i)) return fmt("the byte %zu after the end of the donated memory was changed", i - off - size);
		return "";
	}
};
const char* KIND[] = {"allocated", "anonymous mapping", "shared mapping"};

struct Guest {
	prog::Program p;
	Image im;
	std::string file;
	bool linux_env = false;
	uint64_t limit = 0, edge[4] = {};
	unsigned edge_reg[4] = {};
};
Guest make_guest(Gen& g)
{
	Guest q;
	prog::Opts o;
	o.max_len = 120; o.sys_pct = 0; o.two_segments = false;
	q.p = prog::make(g, o);
	q.p.split = 0;
	q.im.code = q.p.words;
	q.im.code_va = q.p.lay.code; q.im.data_va = q.p.lay.data;
	q.im.data_size = q.p.lay.size - q.p.lay.data;
	q.im.data.assign((const char*)q.p.data.data(), std::min(q.p.data.size(), (size_t)g.draw(q.p.data.size())));
	q.file = build(q.im);
	q.linux_env = g.chance(40);
	q.limit = 1 + g.draw(g.chance(30) ? 3000 : 200);
	for (int i = 0; i < 4; i++) { q.edge_reg[i] = g.chance(40) ? 22 + g.draw(1) : 4 + g.draw(15); q.edge[i] = g.chance(50) ? g.draw(80) : ~0ull; }
	return q;
}
struct Obs {
	std::string error, regs;
	uint64_t pc = 0, count = 0, result = 0;
	std::string mem;
};
std::string shown(const Obs& o) { return fmt("%s, pc 0x%lx, %lu instructions", o.error.empty() ? (o.result ? "stopped" : "limit reached") : o.error.c_str(), (unsigned long)o.pc, (unsigned long)o.count); }
// the registers of the program, with some of them near the end of memory
void start(Machine& m, const Guest& q, uint64_t end)
{
	ref::CPU c = q.p.init;
	c.mem = nullptr;
	m.cpu.reset();
	srand(1);   // (the source of the random bytes of the environment)
	if (q.linux_env) m.setup_linux({"prog", "one", "two"}, {"A=B"});
	c.x[3] = m.cpu.reg(3);
	for (int i = 0; i < 4; i++) if (q.edge[i] != ~0ull) c.x[q.edge_reg[i]] = end - q.edge[i] + 8;
	load_state(m, c);
	m.cpu.jump(q.im.code_va);
	m.set_instruction_counter(0);
}
Obs go(Machine& m, const Guest& q)
{
	Obs o;
	try { o.result = m.simulate(q.limit, 0); }
	catch (const MachineException& e) { o.error = fmt("exception %d (%s) data 0x%lx", (int)e.type(), e.what(), (unsigned long)e.data()); }
	auto& r = m.cpu.registers();
	for (int i = 0; i < 32; i++) o.regs += fmt("%lx ", (unsigned long)r.get(i));
	o.regs.append((const char*)&r.getvr(0), 32 * 32);
	o.regs += (char)fcc_of(m);
	o.pc = m.cpu.pc(); o.count = m.instruction_counter();
	o.mem.assign((const char*)m.memory.arena_ptr(), m.memory.arena_size());
	return o;
}
void same(const Obs& a, const Obs& b, const char* sig, const std::string& how)
{
	auto bad = [&](const char* what, const std::string& d) { fail(fmt("%s:%s", sig, what), how + ": " + d + "\n  here: " + shown(a) + "\n  own:  " + shown(b)); };
	if (a.error != b.error) bad("exception", "the exceptions differ");
	if (a.result != b.result) bad("result", "simulate() returns differently");
	if (a.pc != b.pc) bad("pc", "the program counters differ");
	if (a.count != b.count) bad("count", "the instruction counters differ");
	if (a.regs != b.regs) bad("regs", "the registers differ");
	const size_t n = std::min(a.mem.size(), b.mem.size());
	for (size_t i = 0; i < n; i++) if (a.mem[i] != b.mem[i]) bad("mem", fmt("memory at 0x%zx is %02x, and %02x", i, (uint8_t)a.mem[i], (uint8_t)b.mem[i]));
}
// The memory functions of the host, around the ends of memory and of its areas
void bulk(Gen& g, Machine& a, Machine& b, uint64_t end, const Guest& q, const std::string& how)
{
	// (the contents may differ before, in used memory)
	memcpy(vm::arena(b), vm::arena(a), end);
	const unsigned n = g.draw(6);
	for (unsigned i = 0; i < n; i++) {
		const uint64_t edge = g.pick({end, end, end, q.im.code_va, q.im.data_va});
		const uint64_t at = edge + 8 - g.draw(80), len = g.draw(g.chance(20) ? 5000 : 72), to = g.pick({end, q.im.data_va, q.im.data_va + 0x1000}) + 8 - g.draw(80);
		const unsigned k = g.draw(7);
		std::string r[2];
		Machine* ms[2] = {&a, &b};
		for (int j = 0; j < 2; j++) try {
			auto& mem = ms[j]->memory;
			switch (k) {
			case 0: r[j] = std::string(mem.memview(at, len)); break;
			case 1: mem.memset(at, (int)len, len); break;
			case 2: { std::string s(len, 'x'); mem.copy_to_guest(at, s.data(), len); break; }
			case 3: { std::string s(len, 0); mem.copy_from_guest(&s[0], at, len); r[j] = s; break; }
			case 4: r[j] = fmt("%zu", mem.strlen(at, len)); break;
			case 5: r[j] = mem.memstring(at, len); break;
			case 6: mem.template writable_memarray<uint8_t>(at, len); break;
			default: r[j] = fmt("%d", mem.memcmp(at, to, len)); break;
			}
			r[j] += " ok";
		} catch (const MachineException& e) { r[j] = fmt("exception %d at 0x%lx", (int)e.type(), (unsigned long)e.data()); }
		const char* K[] = {"memview", "memset", "copy_to_guest", "copy_from_guest", "strlen", "memstring", "writable_memarray", "memcmp"};
		if (r[0] != r[1]) fail(fmt("bulk:%s", K[k]), how + fmt(": %s of %lu bytes at 0x%lx (memory ends at 0x%lx) gives %s, and %s in own memory", K[k], (unsigned long)len, (unsigned long)at, (unsigned long)end, r[0].substr(0, 60).c_str(), r[1].substr(0, 60).c_str()));
		if (memcmp(vm::arena(a), vm::arena(b), end) != 0) fail(fmt("bulk-mem:%s", K[k]), how + fmt(": memory differs after %s of %lu bytes at 0x%lx", K[k], (unsigned long)len, (unsigned long)at));
	}
}
std::unique_ptr<Machine> own_machine(const Guest& q, std::shared_ptr<MachineOptions> o)
{
	auto m = std::make_unique<Machine>(std::string_view(q.file), *o);
	m->set_options(o);
	return m;
}
std::shared_ptr<MachineOptions> base_options(size_t memory_max)
{
	auto o = vm::options();
	o->memory_max = memory_max; o->stack_size = 0x4000; o->brk_size = 0x2000;
	return o;
}
// all bytes of the segments as the file says
void check_loaded(const Guest& q, const uint8_t* mem, const std::string& how)
{
	for (size_t i = 0; i < q.im.code.size() * 4; i++) if (mem[q.im.code_va + i] != ((const uint8_t*)q.im.code.data())[i]) fail("loaded:code", how + fmt(": the code at 0x%lx was not loaded", (unsigned long)(q.im.code_va + i)));
	for (size_t i = 0; i < q.im.data_size; i++) {
		const uint8_t want = i < q.im.data.size() ? (uint8_t)q.im.data[i] : 0;
		if (mem[q.im.data_va + i] != want) fail("loaded:data", how + fmt(": the data at 0x%lx is %02x, the file has %02x", (unsigned long)(q.im.data_va + i), mem[q.im.data_va + i], want));
	}
}
} // namespace

// A machine in donated memory is like a machine in memory of its own
PROP(arena_donated)
{
	const size_t rounds = 1 + g.draw(2);
	const size_t memory_max = 0x18000 + 16 * g.draw(0x800);
	const bool relative = g.chance(25);
	const auto info = MachineOptions::estimate_cpu_relative_arena_size_for(memory_max);
	const auto kind = (Buffer::Kind)g.weighted({40, 30, 30});
	size_t offset = 0, size = memory_max + OVER;
	if (relative) {
		if (info.arena_offset < sizeof(Machine) || info.arena_offset + info.arena_size > info.total_size) fail("placement", fmt("a machine of %zu bytes: arena at %zu of %zu bytes, in %zu bytes", sizeof(Machine), info.arena_offset, info.arena_size, info.total_size));
		if (info.arena_size < memory_max) fail("placement", "the estimated arena would not be used");
		size = info.arena_size;
	} else {
		offset = g.chance(40) ? 0 : g.chance(50) ? 16 * g.draw(256) : 4096 - Buffer::GUARD;
		if (g.chance(25)) size += 16 * g.draw(64);
		else if (g.chance(10)) size -= 16 * (1 + g.draw(7));
	}
	// kept for several machines, one after the other
	Buffer buf(kind, relative ? (4096 - Buffer::GUARD) : offset, relative ? info.total_size : size);
	uint8_t* arena_at = relative ? buf.ptr() + info.arena_offset : buf.ptr();
	const bool used = size >= memory_max;
	std::string text = fmt("%s buffer of %zu bytes at %%%zu, memory_max %zu%s", KIND[kind], size, (size_t)arena_at % 4096, memory_max, relative ? ", machine in front" : "");
	uint64_t h = mix(mix(memory_max, size), relative);
	if (g.chance(25)) for (size_t i = 0; i < size; i++) arena_at[i] = (uint8_t)(i * 31 + 7);   // left over from something else
	bool dirty = arena_at[1] != 0;
	for (size_t round = 0; round < rounds; round++) {
		const Guest q = make_guest(g);
		h = hash_bytes(q.file.data(), q.file.size(), h);
		if (dirty && used && !g.chance(40)) { memset(arena_at, 0, size); dirty = false; }
		const std::vector<uint8_t> before(arena_at, arena_at + size);
		auto o = base_options(memory_max);
		auto other = std::make_shared<MachineOptions>(*o);
		o->custom_arena_pointer = arena_at;
		o->custom_arena_size = size;
		const bool whole = used && size < memory_max + OVER;   // the guest gets less than memory_max
		if (used && !whole) other->memory_max = size - OVER;
		std::unique_ptr<Machine> holder;
		Machine* m = nullptr;
		if (relative) { m = new (buf.ptr()) Machine(std::string_view(q.file), *o); m->set_options(o); }
		else { holder = own_machine(q, o); m = holder.get(); }
		struct Kill { Machine* m; ~Kill() { if (m) m->~Machine(); } } kill{relative ? m : nullptr};
		if (used != (m->memory.arena_ptr() == arena_at)) fail(used ? "not-used" : "used", text + fmt(": the donated memory is %s", used ? "not used" : "used although it is smaller than memory_max"));
		const uint64_t end = m->memory.arena_size();
		if (used && end != size - OVER) fail("size", text + fmt(": the guest has %lu bytes of memory", (unsigned long)end));
		if (!used && end != memory_max) fail("size", text + fmt(": the guest has %lu bytes of memory", (unsigned long)end));
		check_loaded(q, m->memory.arena_ptr(), text + fmt(", machine %zu", round + 1));
		if (!whole) {
			auto alone = own_machine(q, other);
			if (alone->memory.arena_size() != end) fail("size", text);
			start(*m, q, end); start(*alone, q, end);
			const Obs a = go(*m, q), b = go(*alone, q);
			if (!dirty || !used) same(a, b, "differs", text + fmt(", machine %zu", round + 1));
			bulk(g, *m, *alone, end, q, text);
			if (!a.error.empty()) g.label("exception"); else g.label(a.result ? "stopped" : "limit reached");
			h = mix(h, a.count);
			if (a.count > 3 && used) g.nontrivial(mix(h, a.pc));
		}
		if (used) {
			// host and guest look at the same memory
			const address_t at = q.p.lay.data + g.draw(q.p.lay.size - q.p.lay.data - 8);
			const uint64_t v = g.raw64();
			memcpy(arena_at + at, &v, 8);
			uint64_t got = m->memory.read<uint64_t>(at);
			if (got != v) fail("host-write", text + fmt(": the host wrote 0x%lx at 0x%lx, the machine reads 0x%lx", (unsigned long)v, (unsigned long)at, (unsigned long)got));
			m->memory.write<uint64_t>(at, ~v);
			memcpy(&got, arena_at + at, 8);
			if (got != ~v) fail("host-read", text + ": what the machine writes does not arrive in the donated memory");
		}
		const bool moved = used && !relative && g.chance(20);
		if (moved) {
			// the host changes its mind
			m->memory.allocate_custom_arena(end + 4096, q.p.lay.code, q.p.lay.data);
			if (m->memory.arena_ptr() == arena_at) fail("reallocated", text + ": another size of memory, in the same place");
			g.label("memory replaced");
		}
		std::vector<uint8_t> after(arena_at, arena_at + size);
		if (moved) m->memory.memset(q.p.lay.data, 0x5a, 4096);
		if (kill.m) { kill.m->~Machine(); kill.m = nullptr; } else holder.reset();
		if (memcmp(after.data(), arena_at, size) != 0) fail("destroyed", text + ": the donated memory changed when its machine was destroyed");
		if (!used && before != after) fail("unused-changed", text + ": memory that is not used was changed");
		std::string d;
		if (relative) {
			for (size_t i = 0; i < buf.off; i++) if (buf.base[i] != Buffer::pattern(i)) d = "a byte before the machine was changed";
			for (size_t i = buf.off + buf.size; i < buf.total; i++) if (buf.base[i] != Buffer::pattern(i)) d = "a byte after the machine's memory was changed";
		} else d = buf.outside();
		if (!d.empty()) fail("outside", text + ": " + d);
		if (used) dirty = true;
	}
	g.label(relative ? "machine in front of its memory" : KIND[kind]);
	if (g.want_sample()) g.sample(text + fmt(", %zu machines", rounds));
}

// After reset() all memory is zero and no code is left, and the machine can be used again
PROP(arena_reset)
{
	const size_t memory_max = 0x18000 + 16 * g.draw(0x800);
	const size_t which = g.weighted({40, 25, 20, 15});   // own memory, or donated
	const Guest q = make_guest(g);
	auto o = base_options(memory_max);
	o->use_shared_execute_segments = g.chance(30);
	std::unique_ptr<Buffer> buf;
	if (which) {
		buf = std::make_unique<Buffer>((Buffer::Kind)(which - 1), g.chance(40) ? 4096 - Buffer::GUARD : 16 * g.draw(256), memory_max + OVER);
		o->custom_arena_pointer = buf->ptr(); o->custom_arena_size = memory_max + OVER;
	}
	const std::string text = fmt("memory of %zu bytes, %s", memory_max, which ? (KIND[which - 1] + fmt(" at %%%zu", (size_t)buf->ptr() % 4096)).c_str() : "own");
	auto m = own_machine(q, o);
	if (m->memory.arena_size() != memory_max) fail("size", text);
	auto poke = [&] {
		const size_t n = g.draw(6);
		for (size_t i = 0; i < n; i++) {
			const address_t at = q.p.lay.data + g.draw(memory_max - q.p.lay.data - 8);
			m->memory.write<uint64_t>(g.chance(30) ? memory_max - 8 : at, g.raw64() | 1);
		}
	};
	start(*m, q, memory_max);
	const Obs first = go(*m, q);
	uint64_t h = hash_bytes(q.file.data(), q.file.size(), memory_max);
	const size_t resets = 1 + g.draw(2);
	for (size_t k = 0; k < resets; k++) {
		poke();
		const auto* at = m->memory.arena_ptr();
		std::weak_ptr<loongarch::DecodedExecuteSegment> code = m->memory.exec_segment_for(q.im.code_va);
		m->memory.reset();
		if (m->memory.arena_ptr() != at || m->memory.arena_size() != memory_max) fail("moved", text + ": reset() moved the memory");
		for (size_t i = 0; i < memory_max; i++) if (at[i]) fail("not-zero", text + fmt(": the byte at 0x%zx is %02x after reset()", i, at[i]));
		if (m->memory.execute_segments_count() != 0) fail("code", text + ": decoded code is left after reset()");
		if (!code.expired()) fail("kept", text + ": the decoded code is kept after reset()");
		int type = -1;
		try { m->cpu.jump(q.im.code_va); m->simulate(100, 0); } catch (const MachineException& e) { type = e.type(); }
		if (type != loongarch::EXECUTION_SPACE_PROTECTION_FAULT) fail("executes", text + fmt(": running the old program after reset() gives %d", type));
		// the same program again
		m->memory.copy_into_arena_unsafe(q.im.code_va, q.im.code.data(), q.im.code.size() * 4);
		m->memory.copy_into_arena_unsafe(q.im.data_va, q.im.data.data(), q.im.data.size());
		m->cpu.init_execute_area(q.im.code.data(), q.im.code_va, q.im.code.size() * 4);
		start(*m, q, memory_max);
		const Obs again = go(*m, q);
		same(again, first, "again", text + fmt(", after %zu resets", k + 1));
	}
	if (buf) { m.reset(); const auto d = buf->outside(); if (!d.empty()) fail("outside", text + ": " + d); }
	g.label(which ? KIND[which - 1] : "own memory");
	if (first.count > 3) g.nontrivial(mix(h, first.count));
	if (g.want_sample()) g.sample(text + fmt(", %zu resets, first run %s", resets, shown(first).c_str()));
}
