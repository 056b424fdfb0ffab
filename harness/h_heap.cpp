// The native heap: the host-side arena, and the guest-visible functions on top of it.
#include "elfimg.hpp"
#include <libloong/native/heap.hpp>
#include <map>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::Arena;
using loongarch::address_t;

namespace {
uint64_t rounded(uint64_t n) { return n > ~15ull ? ~0ull : std::max<uint64_t>(16, (n + 15) & ~15ull); }

// live allocations of an arena: start -> size
struct Model {
	uint64_t base, end;
	std::map<uint64_t, uint64_t> live;
	uint64_t used() const { uint64_t s = 0; for (auto& [a, n] : live) s += n; return s; }
	uint64_t biggest_gap() const
	{
		uint64_t at = base, best = 0;
		for (auto& [a, n] : live) { best = std::max(best, a - at); at = a + n; }
		return std::max(best, end - at);
	}
	// where a gap reaches to after an allocation
	uint64_t room_after(uint64_t p) const
	{
		auto it = live.find(p);
		auto nx = std::next(it);
		return (nx == live.end() ? end : nx->first) - p;
	}
	// the new allocation must lie in free space
	std::string misplaced(uint64_t p, uint64_t n, uint64_t except = 0) const
	{
		if (p < base || p > end || n > end - p) return fmt("[0x%lx, +0x%lx) lies outside [0x%lx, 0x%lx)", (unsigned long)p, (unsigned long)n, (unsigned long)base, (unsigned long)end);
		for (auto& [a, l] : live) if (a != except && p < a + l && a < p + n) return fmt("[0x%lx, +0x%lx) overlaps [0x%lx, +0x%lx)", (unsigned long)p, (unsigned long)n, (unsigned long)a, (unsigned long)l);
		return "";
	}
};
uint64_t draw_size(Gen& g, uint64_t total)
{
	switch (g.weighted({40, 20, 12, 10, 6, 6, 6})) {
	case 0: return g.draw(64);
	case 1: return g.draw(600);
	case 2: return 16 * g.draw(40) + g.pick({-1, 0, 1});
	case 3: return g.draw(total);
	case 4: return total - g.draw(std::min<uint64_t>(total, 40));
	case 5: return total + g.draw(64);
	default: return ~0ull - g.draw(40);
	}
}
} // namespace

PROP(heap_arena)
{
	Model M;
	M.base = g.chance(20) ? 0x80000000u + 16 * g.draw(1000) : 0x1000 + 16 * g.draw(1000);
	const uint64_t total = g.pick({(uint64_t)64, (uint64_t)256, (uint64_t)1000, (uint64_t)4096, (uint64_t)60000}) + g.draw(40);
	M.end = M.base + total;
	Arena arena(M.base, M.end);
	unsigned max_chunks = 4000;
	if (g.chance(20)) arena.set_max_chunks(max_chunks = g.draw(12));
	bool cb = g.chance(30);
	uint64_t unknown = 0; unsigned unknowns = 0;
	if (cb) {
		arena.on_unknown_free([&](uint32_t p, auto*) { unknown = p; unknowns++; return 7; });
		arena.on_unknown_realloc([&](uint32_t p, size_t) { unknown = p; unknowns++; return Arena::ReallocResult{0x123450, 3}; });
	}
	std::string log = fmt("\n  arena [0x%lx, +%lu), at most %u chunks", (unsigned long)M.base, (unsigned long)total, max_chunks);
	uint64_t h = total; unsigned moved = 0, grown = 0, failed = 0, frees = 0;
	auto some = [&] { auto it = M.live.begin(); std::advance(it, g.index(M.live.size())); return it->first; };
	auto invariants = [&] {
		if (arena.bytes_used() != M.used()) fail("used", fmt("bytes_used() is %zu with %lu bytes allocated", arena.bytes_used(), (unsigned long)M.used()) + log);
		if (arena.bytes_free() + arena.bytes_used() != total) fail("sum", fmt("%zu used and %zu free of %lu bytes", arena.bytes_used(), arena.bytes_free(), (unsigned long)total) + log);
		for (auto& [a, n] : M.live) if (arena.size(a) != n) fail("size", fmt("size(0x%lx) is %zu, was %lu", (unsigned long)a, arena.size(a), (unsigned long)n) + log);
	};
	auto grant = [&](uint64_t p, uint64_t n, uint64_t except, const char* who) {
		const uint64_t sz = arena.size(p);
		if (p & 15) fail("align", fmt("%s returned 0x%lx, which is not 16-byte aligned", who, (unsigned long)p) + log);
		if (sz < n) fail("small", fmt("%s(%lu) returned a chunk of %lu bytes", who, (unsigned long)n, (unsigned long)sz) + log);
		if (sz > rounded(n) && except == 0) fail("large", fmt("%s(%lu) took a chunk of %lu bytes", who, (unsigned long)n, (unsigned long)sz) + log);
		const std::string bad = M.misplaced(p, sz, except);
		if (!bad.empty()) fail("overlap", std::string(who) + ": " + bad + log);
		M.live[p] = sz;
	};
	const unsigned n = 1 + g.draw(g.chance(10) ? 200 : 40);
	for (unsigned i = 0; i < n; i++) {
		const unsigned op = g.weighted({45, 25, 25, 5});
		bool many = false;
		if (op == 0) {
			const uint64_t sz = draw_size(g, total);
			log += fmt("\n  malloc(%lu)", (unsigned long)sz); h = mix(h, sz);
			uint64_t p = 0;
			try { p = arena.malloc(sz); } catch (const MachineException& e) { many = true; }
			if (many) { log += " raised"; if (max_chunks == 4000) fail("chunks", "ran out of chunks" + log); }
			else {
				log += fmt(" = 0x%lx", (unsigned long)p);
				if (p == 0) {
					failed++;
					if (M.biggest_gap() >= rounded(sz)) fail("oom", fmt("malloc(%lu) failed with %lu contiguous bytes free", (unsigned long)sz, (unsigned long)M.biggest_gap()) + log);
				} else grant(p, sz, 0, "malloc");
			}
		} else if (op == 1 && !M.live.empty()) {
			const uint64_t p = some();
			log += fmt("\n  free(0x%lx)", (unsigned long)p); h = mix(h, p * 3);
			const int r = arena.free(p);
			if (r != 0) fail("free", fmt("free of an allocation returned %d", r) + log);
			M.live.erase(p); frees++;
			if (arena.size(p) != 0) fail("freed", "size() of a freed allocation is not 0" + log);
		} else if (op == 2) {
			const uint64_t p = M.live.empty() || g.chance(10) ? 0 : some();
			const uint64_t sz = draw_size(g, total);
			log += fmt("\n  realloc(0x%lx, %lu)", (unsigned long)p, (unsigned long)sz); h = mix(h, sz + p);
			std::pair<uint64_t, uint64_t> r;
			try { auto [a, b] = arena.realloc(p, sz); r = {a, b}; } catch (const MachineException& e) { many = true; }
			if (many) { log += " raised"; if (max_chunks == 4000) fail("chunks", "ran out of chunks" + log); }
			else {
				log += fmt(" = {0x%lx, %lu}", (unsigned long)r.first, (unsigned long)r.second);
				if (p == 0) {
					if (r.second != 0) fail("realloc:old", "realloc(0) reports an old length" + log);
					if (r.first) grant(r.first, sz, 0, "realloc");
					else { failed++; if (M.biggest_gap() >= rounded(sz)) fail("oom", "realloc(0) failed with enough contiguous bytes free" + log); }
				} else if (r.first == 0) {
					failed++;
					if (M.biggest_gap() >= rounded(sz) || M.room_after(p) >= rounded(sz)) fail("oom:realloc", "realloc failed with enough contiguous bytes free" + log);
				} else if (r.first == p) {
					const uint64_t was = M.live[p];
					grant(p, sz, p, "realloc");
					if (M.live[p] > std::max(was, rounded(sz))) fail("large", "realloc took more than was asked" + log);
					if (M.live[p] > was) grown++;
				} else {
					const uint64_t was = M.live[p];
					if (r.second != was) fail("realloc:old", fmt("realloc reports %lu bytes to copy, the allocation had %lu", (unsigned long)r.second, (unsigned long)was) + log);
					grant(r.first, sz, 0, "realloc");  // the old one still counts: its contents are copied afterwards
					M.live.erase(p); moved++;
				}
			}
		} else {
			// pointers which are not allocations
			uint64_t p = g.pick({M.base, M.base + 8, M.end, M.end - 16, (uint64_t)0x10, M.base + 16 * g.draw(total / 16), M.base + g.draw(total)});
			if (M.live.count(p)) p++;
			if (p == 0 || M.live.count(p)) continue;
			log += fmt("\n  not an allocation: 0x%lx", (unsigned long)p); h = mix(h, p);
			if (arena.size(p) != 0) fail("unknown:size", fmt("size() of it is %zu", arena.size(p)) + log);
			unknowns = 0;
			if (const int r = arena.free(p); r != (cb ? 7 : -1) || (cb && (unknowns != 1 || unknown != p))) fail("unknown:free", fmt("free() of it returned %d", r) + log);
			unknowns = 0;
			if (auto r = arena.realloc(p, 32); r != (cb ? Arena::ReallocResult{0x123450, 3} : Arena::ReallocResult{0, 0}) || (cb && (unknowns != 1 || unknown != p))) fail("unknown:realloc", "realloc() of it did not fail" + log);
		}
		invariants();
	}
	// everything comes back
	const unsigned dir = g.draw(2);
	while (!M.live.empty()) {
		const uint64_t p = dir == 0 ? M.live.begin()->first : dir == 1 ? M.live.rbegin()->first : some();
		if (arena.free(p) != 0) fail("free", "free failed" + log);
		M.live.erase(p);
	}
	invariants();
	const uint64_t all = total & ~15ull;
	uint64_t p = 0;
	bool many = false;
	try { p = arena.malloc(all); } catch (const MachineException&) { many = true; }
	if (!many && p != M.base) fail("coalesce", fmt("with everything freed, malloc(%lu) returned 0x%lx", (unsigned long)all, (unsigned long)p) + log);
	if (moved) g.label("~moved"); if (grown) g.label("~grown in place"); if (failed) g.label("~exhausted"); if (max_chunks < 13) g.label("few chunks");
	if (n > 4) g.nontrivial(h);
	if (g.want_sample()) g.sample(log.substr(1));
}

// malloc, calloc, realloc and free as the guest sees them: called directly, through a
// patched function of that name, or from a running program
namespace {
enum { HEAP_SYS = 495 };
struct Block { std::string bytes; uint64_t size; };
}
PROP(heap_guest)
{
	Image im;
	Asm a(im);
	a.stop();
	const char* names[] = {"malloc", "calloc", "realloc", "free", "meminfo"};
	uint64_t fn[5], stub[5];
	for (int i = 0; i < 5; i++) {
		for (unsigned k = g.draw(3); k > 0; k--) a.nop();
		fn[i] = a.here();
		a.addi_d(A0, 0, -77); a.ret();          // what an unpatched function does
		if (i < 4) im.syms.push_back({names[i], fn[i], 8});
		for (unsigned k = g.draw(3); k > 0; k--) a.nop();
		stub[i] = a.here(); a.syscall(HEAP_SYS + i); a.ret();
	}
	// a caller which keeps a frame of its own
	const uint64_t outer = a.here();
	a.addi_d(SP, SP, -16); a.st_d(RA, SP, 8); a.jirl(RA, A2 + 4, 0); a.ld_d(RA, SP, 8); a.addi_d(SP, SP, 16); a.ret();
	const uint64_t exit = a.here(); a.stop();
	auto L = load(im, 0x200000);
	Machine& m = *L;
	m.memory.set_exit_address(exit);
	const uint64_t total = g.pick({(uint64_t)512, (uint64_t)4096, (uint64_t)65536});
	const uint64_t base = 0x100000 + 16 * g.draw(64);
	m.setup_accelerated_heap(base, total);
	Model M{base, base + total, {}};
	std::map<uint64_t, Block> blocks;
	std::string log = fmt("\n  heap [0x%lx, +%lu)", (unsigned long)base, (unsigned long)total);
	uint64_t h = total; unsigned moved = 0, zeroed = 0, failed = 0;
	bool threw; std::string what; int type;
	auto call = [&](int f, uint64_t x, uint64_t y = 0) -> uint64_t {
		threw = false;
		uint64_t target = f < 4 && g.chance(60) ? fn[f] : stub[f];
		const bool nested = g.chance(30);
		for (int r = 22; r < 32; r++) m.cpu.reg(r) = 0x1111 * r;
		try {
			const uint64_t r = nested ? m.vmcall<uint64_t>(outer, x, y, 0, 0, 0, 0, target) : m.vmcall<uint64_t>(target, x, y);
			for (int s = 22; s < 32; s++) if (m.cpu.reg(s) != 0x1111u * s) fail("saved", "a saved register changed" + log);
			return r;
		} catch (const MachineException& e) { threw = true; type = e.type(); what = e.what(); return 0; }
	};
	auto fill = [&](uint64_t p, uint64_t n) { std::string s(n, 0); for (uint64_t k = 0; k < n; k++) s[k] = (char)mix(h, k); if (n) m.memory.copy_to_guest(p, s.data(), n); blocks[p] = {s, n}; M.live[p] = m.arena().size(p); if (M.live[p] < n) fail("g:small", "the block is smaller than asked for" + log); };
	auto intact = [&] {
		for (auto& [p, b] : blocks) {
			if (b.bytes.empty()) continue;
			std::string s(b.bytes.size(), 0); m.memory.copy_from_guest(s.data(), p, s.size());
			if (s != b.bytes) fail("contents", fmt("the contents of the block at 0x%lx changed", (unsigned long)p) + log);
		}
	};
	auto place = [&](uint64_t p, uint64_t n, uint64_t except) {
		if (p & 15) fail("g:align", "a block is not 16-byte aligned" + log);
		const std::string bad = M.misplaced(p, std::max<uint64_t>(n, 1), except);
		if (!bad.empty()) fail("g:overlap", bad + log);
	};
	const unsigned n = 1 + g.draw(30);
	for (unsigned i = 0; i < n; i++) {
		const unsigned op = g.weighted({30, 20, 25, 20, 5});
		auto some = [&] { auto it = blocks.begin(); std::advance(it, g.index(blocks.size())); return it->first; };
		if (op == 0) {
			const uint64_t sz = draw_size(g, total);
			log += fmt("\n  malloc(%lu)", (unsigned long)sz); h = mix(h, sz);
			const uint64_t p = call(0, sz);
			if (threw) fail("g:threw", "raised " + what + log);
			log += fmt(" = 0x%lx", (unsigned long)p);
			if (p) { place(p, sz, 0); fill(p, sz); } else { failed++; if (M.biggest_gap() >= rounded(sz)) fail("g:oom", "failed with enough contiguous bytes free" + log); }
		} else if (op == 1) {
			uint64_t c, s;
			switch (g.draw(3)) {
			case 0: c = g.draw(10); s = g.draw(60); break;
			case 1: c = draw_size(g, total); s = g.draw(2); break;
			case 2: s = draw_size(g, total); c = g.draw(2); break;
			default: s = 1ull << (1 + g.draw(62)); c = (g.chance(50) ? 1 : ~0ull) * (~0ull / s + 1) + g.draw(4); break;
			}
			if (g.chance(30) && !blocks.empty()) { const uint64_t q = some(); call(3, q); blocks.erase(q); M.live.erase(q); }
			const unsigned __int128 want = (unsigned __int128)c * s;
			log += fmt("\n  calloc(%lu, %lu)", (unsigned long)c, (unsigned long)s); h = mix(h, c * 31 + s);
			const uint64_t p = call(1, c, s);
			if (threw) fail("g:threw", "raised " + what + log);
			log += fmt(" = 0x%lx", (unsigned long)p);
			if (p && want > total) fail("calloc:overflow", "returned memory for more than the heap holds" + log);
			if (p) {
				const uint64_t sz = (uint64_t)want;
				place(p, sz, 0);
				std::string z(sz, 0), got(sz, 1);
				if (sz) m.memory.copy_from_guest(got.data(), p, sz);
				if (got != z) fail("calloc:zero", "memory from calloc is not zero" + log);
				zeroed++;
				fill(p, sz);
			} else { failed++; if (want <= total && M.biggest_gap() >= rounded((uint64_t)want)) fail("g:oom", "failed with enough contiguous bytes free" + log); }
		} else if (op == 2) {
			const uint64_t p = blocks.empty() || g.chance(10) ? 0 : some();
			const uint64_t sz = draw_size(g, total);
			log += fmt("\n  realloc(0x%lx, %lu)", (unsigned long)p, (unsigned long)sz); h = mix(h, sz * 5 + p);
			const uint64_t q = call(2, p, sz);
			if (threw) fail("g:threw", "raised " + what + log);
			log += fmt(" = 0x%lx", (unsigned long)q);
			if (q) {
				place(q, sz, p);
				std::string keep = p ? blocks[p].bytes : "";
				keep.resize(std::min<uint64_t>(keep.size(), sz));
				if (p) { blocks.erase(p); M.live.erase(p); }
				std::string got(keep.size(), 0);
				if (got.size()) m.memory.copy_from_guest(got.data(), q, got.size());
				if (got != keep) fail("realloc:contents", "the contents did not survive realloc" + log);
				if (p && q != p) moved++;
				fill(q, sz);
			} else { failed++; if (sz && M.biggest_gap() >= rounded(sz)) fail("g:oom", "failed with enough contiguous bytes free" + log); }
		} else if (op == 3) {
			if (blocks.empty() || g.chance(10)) {
				log += "\n  free(0)";
				call(3, 0);
				if (threw) fail("free:null", "free(0) raised " + what + log);
			} else {
				const uint64_t p = some();
				log += fmt("\n  free(0x%lx)", (unsigned long)p); h = mix(h, p);
				call(3, p);
				if (threw) fail("g:threw", "raised " + what + log);
				blocks.erase(p); M.live.erase(p);
				if (g.chance(20)) {
					log += " twice";
					call(3, p);
					if (!threw || type != loongarch::ILLEGAL_OPERATION) fail("double", "freeing a block twice was not reported" + log);
					if (g.chance(50)) { call(2, p, 32); if (threw || m.return_value<uint64_t>() != 0) fail("realloc:freed", "realloc of a freed block did not fail" + log); }
				}
			}
		} else {
			const uint64_t dst = 0x40000;
			const uint64_t r = call(4, dst);
			if (threw || r != 0) fail("meminfo", "meminfo failed" + log);
			const auto* v = m.memory.memarray<uint64_t>(dst, 3);
			if (v[0] + v[1] != total || v[1] != M.used()) fail("meminfo", fmt("meminfo: %lu free, %lu used", (unsigned long)v[0], (unsigned long)v[1]) + log);
			if (v[0] != m.arena().bytes_free() || v[1] != m.arena().bytes_used()) fail("meminfo", "meminfo disagrees with the arena" + log);
		}
		intact();
	}
	if (moved) g.label("~moved"); if (zeroed) g.label("~calloc"); if (failed) g.label("~exhausted");
	if (n > 3) g.nontrivial(h);
	if (g.want_sample()) g.sample(log.substr(1));
}

// Pointers above 2 GiB
PROP(heap_high)
{
	Image im;
	Asm a(im);
	a.stop();
	im.syms.push_back({"malloc", a.here(), 8}); a.addi_d(A0, 0, -77); a.ret();
	im.syms.push_back({"realloc", a.here(), 8}); a.addi_d(A0, 0, -77); a.ret();
	im.syms.push_back({"calloc", a.here(), 8}); a.addi_d(A0, 0, -77); a.ret();
	im.syms.push_back({"free", a.here(), 8}); a.addi_d(A0, 0, -77); a.ret();
	const uint64_t exit = a.here(); a.stop();
	static Loaded L = load(im, 0xc0000000ull);
	Machine& m = *L;
	m.memory.set_exit_address(exit);
	const uint64_t base = 0x80000000u - g.pick({0x100, 0, 0x1000}) + 16 * g.draw(0x1000);
	static bool once = false;
	if (!once) { m.setup_accelerated_heap(0x7ffff000u, 0x100000); once = true; }
	(void)base;
	std::vector<uint64_t> ps;
	const unsigned n = 1 + g.draw(20);
	for (unsigned i = 0; i < n; i++) {
		const uint64_t sz = g.draw(2000);
		const uint64_t p = g.chance(30) ? m.vmcall<uint64_t>("calloc", (uint64_t)1, sz) : g.chance(30) ? m.vmcall<uint64_t>("realloc", (uint64_t)0, sz) : m.vmcall<uint64_t>("malloc", sz);
		if (p == 0) fail("high:oom", "allocation failed");
		if (p < 0x7ffff000u || p + sz > 0x800ff000u) fail("high", fmt("allocation of %lu bytes at 0x%lx, the heap is at 0x7ffff000", (unsigned long)sz, (unsigned long)p));
		m.memory.write<uint64_t>(p, p);
		ps.push_back(p);
	}
	for (auto p : ps) { if (m.memory.read<uint64_t>(p) != p) fail("high:contents", "the contents changed"); m.vmcall<uint64_t>("free", p); }
	if (m.arena().bytes_used()) fail("high:free", "memory was not given back");
	g.nontrivial(hash_bytes(ps.data(), ps.size() * 8));
	if (g.want_sample()) g.sample(fmt("%u allocations around 0x%lx", n, (unsigned long)ps.back()));
}
