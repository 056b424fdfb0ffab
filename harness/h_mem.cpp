// The host's memory interface against a flat byte-array model.
#include "vm.hpp"
using namespace pbt;
using namespace vm;

namespace {
struct Model {
	std::vector<uint8_t> b;
	uint64_t ro, data;
	bool rd_start(uint64_t a) const { return a >= ro && a < b.size(); }
	bool wr_start(uint64_t a) const { return a >= data && a < b.size(); }
	bool fits(uint64_t a, uint64_t n) const { return a < b.size() && n <= b.size() - a; }
	bool rd(uint64_t a, uint64_t n) const { return rd_start(a) && fits(a, n); }
	bool wr(uint64_t a, uint64_t n) const { return wr_start(a) && fits(a, n); }
};
struct alignas(1) Blob32 { uint8_t b[32]; };

enum Res { DONE, FAULT, OTHER };
template <typename F> Res attempt(F f, std::string& what)
{
	try { f(); return DONE; }
	catch (const MachineException& e) { what = e.what(); return e.type() == loongarch::PROTECTION_FAULT ? FAULT : OTHER; }
	catch (const std::exception& e) { what = e.what(); return OTHER; }
}
uint64_t pick_addr(Gen& g, const Model& m)
{
	const uint64_t k = g.draw(80);
	switch (g.weighted({30, 12, 12, 12, 6, 6, 6})) {
	case 0: return m.data + g.draw(m.b.size() - 1 - m.data);
	case 1: return m.ro + k - 40;
	case 2: return m.data + k - 40;
	case 3: return m.b.size() + k - 40 - (g.chance(50) ? 0 : 30);
	case 4: return m.ro + g.draw(m.b.size() - 1 - m.ro);
	case 5: return k - 40;
	default: return g.u64();
	}
}
uint64_t pick_len(Gen& g, const Model& m, uint64_t a)
{
	switch (g.weighted({35, 12, 12, 8, 8, 6, 4})) {
	case 0: return 1 + g.draw(64);
	case 1: return a < m.b.size() ? m.b.size() - a : g.draw(10);
	case 2: return a < m.b.size() ? m.b.size() - a + 1 + g.draw(3) : g.draw(10);
	case 3: return g.draw(m.b.size());
	case 4: return 0;
	case 5: return 0 - a + g.draw(8);           // wraps around the address space
	default: return g.u64();
	}
}
// a length that is out of range is fine for the machine, but a source buffer must exist
uint8_t* scratch()
{
	static std::vector<uint8_t> s(1 << 20);
	return s.data();
}
} // namespace

PROP(mem_api)
{
	const bool two = g.chance(20);
	std::unique_ptr<Machine> M[2];
	Model mod[2];
	for (int k = 0; k < 1 + two; k++) {
		const uint64_t size = g.chance(50) ? 0x1000 * (1 + g.draw(40)) : 64 + g.draw(0x18000);
		uint64_t ro = g.draw(std::min<uint64_t>(size - 2, 0x8000));
		uint64_t data = g.chance(20) ? ro : ro + g.draw(size - 2 - ro);
		if (g.chance(50)) { ro &= ~0xfffull; data &= ~0xfffull; if (data < ro) data = ro; }
		M[k] = bare(size, ro, data);
		mod[k].b.resize(size); mod[k].ro = ro; mod[k].data = data;
		uint64_t s = g.draw(0xffff) * 77 + 1;
		const bool sparse = g.chance(50);   // few zero bytes, or many
		for (size_t i = 0; i < size; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; mod[k].b[i] = sparse && (s >> 60) ? 0 : 1 + (s >> 56) % 255; }
		M[k]->memory.copy_into_arena_unsafe(0, mod[k].b.data(), size);
	}
	const unsigned n = 4 + g.draw(40);
	unsigned ok = 0, faults = 0;
	std::string story;
	uint64_t h = 0;
	for (unsigned i = 0; i < n; i++) {
		const int k = two ? g.draw(1) : 0;
		auto& mem = M[k]->memory;
		Model& mo = mod[k];
		const uint64_t a = pick_addr(g, mo);
		const size_t op = g.weighted({14, 14, 12, 12, 6, 6, 10, 8, 6, 6, 6});
		std::string what, desc;
		Res r = DONE;
		int expect = -1;   // 1 must work, 0 must fault, -1 open
		std::string bad;
		uint64_t len = 0;
		const char* name = "";
		h = mix(h, a * 16 + op);
		switch (op) {
		case 0: { // read
			const unsigned w = g.draw(4);
			len = w < 4 ? 1u << w : 32;
			name = "read";
			expect = mo.rd(a, len) ? 1 : mo.rd_start(a) ? -1 : 0;
			uint8_t buf[32] = {};
			r = attempt([&] {
				if (w == 0) { auto v = mem.read<uint8_t>(a); memcpy(buf, &v, 1); }
				else if (w == 1) { auto v = mem.read<uint16_t>(a); memcpy(buf, &v, 2); }
				else if (w == 2) { auto v = mem.read<uint32_t>(a); memcpy(buf, &v, 4); }
				else if (w == 3) { auto v = mem.read<uint64_t>(a); memcpy(buf, &v, 8); }
				else { auto v = mem.read<Blob32>(a); memcpy(buf, &v, 32); }
			}, what);
			if (r == DONE && expect == 1 && memcmp(buf, &mo.b[a], len)) bad = "value";
			break;
		}
		case 1: { // write
			const unsigned w = g.draw(4);
			len = w < 4 ? 1u << w : 32;
			name = "write";
			expect = mo.wr(a, len) ? 1 : mo.wr_start(a) ? -1 : 0;
			Blob32 v; uint64_t x[4] = {g.raw64(), 0, 0, 0}; x[1] = ~x[0]; x[2] = x[0] * 3; x[3] = x[0] * 5; memcpy(&v, x, 32);
			r = attempt([&] {
				if (w == 0) mem.write<uint8_t>(a, x[0]);
				else if (w == 1) mem.write<uint16_t>(a, x[0]);
				else if (w == 2) mem.write<uint32_t>(a, x[0]);
				else if (w == 3) mem.write<uint64_t>(a, x[0]);
				else mem.write<Blob32>(a, v);
			}, what);
			if (r == DONE && mo.wr_start(a)) memcpy(&mo.b[a], &v, std::min<uint64_t>(len, mo.b.size() - a));
			break;
		}
		case 2: { // copy_to_guest
			len = pick_len(g, mo, a); name = "copy_to_guest";
			expect = len == 0 ? (mo.wr_start(a) ? 1 : -1) : mo.wr(a, len);
			const uint64_t seed = g.draw(255);
			if (len < (1 << 20)) for (size_t j = 0; j < len; j++) scratch()[j] = j * 7 + seed;
			r = attempt([&] { mem.copy_to_guest(a, scratch(), len); }, what);
			if (r == DONE && mo.wr(a, len)) memcpy(&mo.b[a], scratch(), len);
			break;
		}
		case 3: { // copy_from_guest
			len = pick_len(g, mo, a); name = "copy_from_guest";
			expect = len == 0 ? (mo.rd_start(a) ? 1 : -1) : mo.rd(a, len);
			r = attempt([&] { mem.copy_from_guest(scratch(), a, len); }, what);
			if (r == DONE && mo.rd(a, len) && memcmp(scratch(), &mo.b[a], len)) bad = "bytes";
			break;
		}
		case 4: { // memarray
			const bool wide = g.chance(50); name = wide ? "memarray<u32>" : "memarray<u8>";
			uint64_t cnt = pick_len(g, mo, a); const unsigned es = wide ? 4 : 1;
			if (wide && g.chance(20)) cnt = (1ull << 62) + g.draw(8);
			const bool ovf = cnt > ~0ull / es; len = cnt * es;
			expect = cnt == 0 ? (mo.rd_start(a) ? 1 : -1) : !ovf && mo.rd(a, len);
			const void* p = nullptr;
			r = attempt([&] { p = wide ? (const void*)mem.memarray<uint32_t>(a, cnt) : (const void*)mem.memarray<uint8_t>(a, cnt); }, what);
			if (r == DONE && expect == 1 && memcmp(p, &mo.b[a], len)) bad = "contents";
			break;
		}
		case 5: { // writable_memarray
			const bool wide = g.chance(50); name = wide ? "writable_memarray<u64>" : "writable_memarray<u8>";
			uint64_t cnt = pick_len(g, mo, a); const unsigned es = wide ? 8 : 1;
			if (wide && g.chance(20)) cnt = (1ull << 61) + g.draw(8);
			const bool ovf = cnt > ~0ull / es; len = cnt * es;
			expect = cnt == 0 ? (mo.wr_start(a) ? 1 : -1) : !ovf && mo.wr(a, len);
			uint8_t* p = nullptr;
			r = attempt([&] { p = wide ? (uint8_t*)mem.writable_memarray<uint64_t>(a, cnt) : mem.writable_memarray<uint8_t>(a, cnt); }, what);
			if (r == DONE && expect == 1) {
				if (memcmp(p, &mo.b[a], len)) bad = "contents";
				else if (len) { const uint64_t j = g.draw(len - 1); p[j] ^= 0x3c; mo.b[a + j] ^= 0x3c; }
			}
			break;
		}
		case 6: { // memset
			len = pick_len(g, mo, a); name = "memset";
			expect = len == 0 ? (mo.wr_start(a) ? 1 : -1) : mo.wr(a, len);
			const uint8_t v = g.draw(255);
			r = attempt([&] { mem.memset(a, v, len); }, what);
			if (r == DONE && mo.wr(a, len)) memset(&mo.b[a], v, len);
			break;
		}
		case 7: { // memcmp
			const uint64_t b = g.chance(40) ? a + g.draw(2) : pick_addr(g, mo);
			len = pick_len(g, mo, g.chance(50) ? a : b); name = "memcmp";
			if (g.chance(60) && mo.wr(a, 32) && mo.wr(b, 32)) { len = 1 + g.draw(31); memmove(&mo.b[b], &mo.b[a], len); if (g.chance(50)) mo.b[b + g.draw(len - 1)] ^= 1 << g.draw(7); mem.copy_into_arena_unsafe(0, mo.b.data(), mo.b.size()); }
			expect = len == 0 ? (mo.rd_start(a) && mo.rd_start(b) ? 1 : -1) : mo.rd(a, len) && mo.rd(b, len);
			int got = 0;
			r = attempt([&] { got = mem.memcmp(a, b, len); }, what);
			if (r == DONE && expect == 1) { const int want = memcmp(&mo.b[a], &mo.b[b], len); if ((want < 0) != (got < 0) || (want > 0) != (got > 0)) bad = fmt("result %d, model %d", got, want); }
			break;
		}
		case 8: { // strlen
			const uint64_t maxlen = g.chance(50) ? 4096 : pick_len(g, mo, a); len = maxlen; name = "strlen";
			expect = maxlen == 0 || a >= mo.b.size() ? -1 : mo.rd_start(a);
			size_t got = 0;
			r = attempt([&] { got = mem.strlen(a, maxlen); }, what);
			if (r == DONE && expect == 1) { uint64_t want = 0; while (want < maxlen && a + want < mo.b.size() && mo.b[a + want]) want++; if (got != want) bad = fmt("result %zu, model %lu", got, (unsigned long)want); }
			break;
		}
		case 9: { // memstring
			const uint64_t maxlen = g.chance(50) ? 4096 : pick_len(g, mo, a); len = maxlen; name = "memstring";
			expect = maxlen == 0 ? -1 : mo.rd_start(a);
			std::string got;
			r = attempt([&] { got = mem.memstring(a, maxlen); }, what);
			if (r == DONE && expect == 1) { uint64_t want = 0; while (want < maxlen && a + want < mo.b.size() && mo.b[a + want]) want++; if (got != std::string((const char*)&mo.b[a], want)) bad = fmt("string of %zu bytes, model %lu", got.size(), (unsigned long)want); }
			break;
		}
		default: { // memview
			len = pick_len(g, mo, a); name = "memview";
			expect = len == 0 ? (mo.rd_start(a) ? 1 : -1) : mo.rd(a, len);
			std::string_view v;
			r = attempt([&] { v = mem.memview(a, len); }, what);
			if (r == DONE && expect == 1 && v != std::string_view((const char*)&mo.b[a], len)) bad = "contents";
			break;
		}
		}
		const std::string where = fmt("%s at 0x%lx, length 0x%lx (memory of 0x%zx bytes, readable from 0x%lx, writable from 0x%lx)", name, (unsigned long)a, (unsigned long)len, mo.b.size(), (unsigned long)mo.ro, (unsigned long)mo.data);
		if (r == OTHER) fail(fmt("%s:exc", name), where + ": " + what);
		if (r == DONE && expect == 0) fail(fmt("%s:nofault", name), where + ": out of range, but it succeeded");
		if (r == FAULT && expect == 1) fail(fmt("%s:fault", name), where + ": in range, but it raised: " + what);
		if (!bad.empty()) fail(fmt("%s:result", name), where + ": wrong " + bad);
		for (int j = 0; j < 1 + two; j++)
			if (memcmp(arena(*M[j]), mod[j].b.data(), mod[j].b.size())) {
				size_t p = 0; while (arena(*M[j])[p] == mod[j].b[p]) p++;
				fail(fmt("%s:mem", name), where + fmt(": memory%s at 0x%zx is %02x, model %02x", j == k ? "" : " of another machine", p, arena(*M[j])[p], mod[j].b[p]));
			}
		if (r == DONE) ok++; else faults++;
		if (i < 8) story += fmt("\n  %s 0x%lx+0x%lx -> %s", name, (unsigned long)a, (unsigned long)len, r == DONE ? "ok" : "fault");
		g.label(name);
	}
	if (ok && faults) { g.label("~both successes and faults"); g.nontrivial(h); }
	if (g.want_sample()) g.sample(fmt("memory 0x%zx, readable from 0x%lx, writable from 0x%lx:", mod[0].b.size(), (unsigned long)mod[0].ro, (unsigned long)mod[0].data) + story);
}

// Program areas handed out by the memory manager
PROP(mem_mmap)
{
	auto m = bare(0x40000, 0x1000, 0x2000);
	auto& mem = m->memory;
	struct R { uint64_t a, n; };
	std::vector<R> live;
	const unsigned n = 2 + g.draw(30);
	uint64_t h = 0;
	unsigned frees = 0;
	for (unsigned i = 0; i < n; i++) {
		if (live.empty() || g.chance(60)) {
			const uint64_t sz = g.chance(20) ? 4096 * (1 + g.draw(6)) : 1 + g.draw(20000);
			const uint64_t a = mem.mmap_allocate(sz);
			if (a & 4095) fail("mmap:align", fmt("mmap_allocate(%lu) returned unaligned 0x%lx", (unsigned long)sz, (unsigned long)a));
			for (auto& r : live) if (a < r.a + r.n && r.a < a + sz) fail("mmap:overlap", fmt("mmap_allocate(%lu) returned 0x%lx, overlapping the live area 0x%lx+0x%lx", (unsigned long)sz, (unsigned long)a, (unsigned long)r.a, (unsigned long)r.n));
			live.push_back({a, (sz + 4095) & ~4095ull});
			h = mix(h, a + sz);
		} else {
			const size_t k = g.chance(60) ? live.size() - 1 : g.index(live.size());
			mem.mmap_deallocate(live[k].a, live[k].n);
			live.erase(live.begin() + k);
			frees++;
			h = mix(h, k);
		}
	}
	if (frees && live.size() > 1) g.nontrivial(h);
	if (g.want_sample()) g.sample(fmt("%u operations, %u deallocations, %zu areas live at the end, none overlapping", n, frees, live.size()));
}
