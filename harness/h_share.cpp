// Machines are independent of each other, whether or not they share decoded code,
// in one thread or in many.
#include "prog.hpp"
#include "elfimg.hpp"
#include <libloong/shared_exec_segment.hpp>
#include <libloong/util/crc32.hpp>
#include <thread>
#include <atomic>
#include <list>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using loongarch::address_t;

namespace {
uint32_t crc_ref(const uint8_t* p, size_t n, uint32_t crc)
{
	for (size_t i = 0; i < n; i++) {
		crc ^= p[i];
		for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ ((crc & 1) ? 0x82F63B78u : 0);
	}
	return crc;
}
uint32_t crc_of(const std::vector<uint32_t>& w) { return ~crc_ref((const uint8_t*)w.data(), w.size() * 4, ~0u); }
// choose w[at] so that the checksum becomes `want`
void force_crc(std::vector<uint32_t>& w, size_t at, uint32_t want)
{
	w[at] = 0;
	const uint32_t base = crc_of(w);
	uint32_t col[32], sel[32];
	for (int i = 0; i < 32; i++) { w[at] = 1u << i; col[i] = crc_of(w) ^ base; sel[i] = 1u << i; }
	uint32_t target = base ^ want, pick = 0;
	for (int bit = 31, done = 0; bit >= 0; bit--) {
		int p = -1;
		for (int i = done; i < 32; i++) if (col[i] >> bit & 1) { p = i; break; }
		if (p < 0) continue;
		std::swap(col[p], col[done]); std::swap(sel[p], sel[done]);
		for (int i = done + 1; i < 32; i++) if (col[i] >> bit & 1) { col[i] ^= col[done]; sel[i] ^= sel[done]; }
		if (target >> bit & 1) { target ^= col[done]; pick ^= sel[done]; }
		done++;
	}
	w[at] = pick;
}

constexpr uint64_t CODE_VA = 0x10000, DATA_VA = 0x40000, EXTRA_VA = 0x30000;
constexpr unsigned NR_PRINT = 401, NR_ID = 402;

// Variants of one program: same length mostly, same checksum sometimes
struct Family { std::vector<std::vector<uint32_t>> code; uint64_t f_malloc, f_len, f_work; unsigned gap = 0; };
std::vector<uint32_t> alu(Gen& g, unsigned n)
{
	std::vector<uint32_t> v;
	for (unsigned i = 0; i < n; i++) {
		const unsigned rd = 4 + g.draw(5), rj = 4 + g.draw(5), rk = 4 + g.draw(5);
		switch (g.draw(6)) {
		case 0: v.push_back(Asm::i12(0x02c00000, rd, rj, (int)g.draw(4095) - 2048)); break;
		case 1: v.push_back(0x00108000u | rk << 10 | rj << 5 | rd); break;   // add.d
		case 2: v.push_back(0x00118000u | rk << 10 | rj << 5 | rd); break;   // sub.d
		case 3: v.push_back(0x00158000u | rk << 10 | rj << 5 | rd); break;   // xor
		case 4: v.push_back(0x001d8000u | rk << 10 | rj << 5 | rd); break;   // mul.d
		case 5: v.push_back(0x2c400000u | (8 * g.draw(31)) << 10 | 23 << 5 | (unsigned)g.draw(31)); break; // vst
		default: v.push_back(0x00410000u | (unsigned)g.draw(63) << 10 | rj << 5 | rd); break;  // slli.d
		}
	}
	return v;
}
std::vector<uint32_t> build_code(Gen& g, Family& F, const std::vector<uint32_t>& body)
{
	(void)g;
	std::vector<uint32_t> w;
	Asm a(w, CODE_VA);
	a.li(23, DATA_VA);
	a.ori(24, 0, 3);
	const uint64_t loop = a.here();
	for (auto x : body) a.raw(x);
	a.st_d(4, 23, 512);
	a.addi_d(24, 24, -1);
	a.bnez(24, (int64_t)loop - (int64_t)a.here());
	// keep the result, allocate, measure, print, stop
	a.ori(25, 4, 0);
	a.ori(4, 0, 40);
	const size_t at_m = w.size(); a.nop();
	a.st_d(4, 23, 520);
	a.li(4, DATA_VA + 0x800);
	const size_t at_l = w.size(); a.nop();
	a.st_d(4, 23, 528);
	a.ori(4, 25, 0);
	a.syscall(NR_PRINT);
	a.syscall(NR_ID);
	a.st_d(4, 23, 536);
	a.stop();
	for (unsigned i = 0; i < F.gap; i++) a.raw(body[i % body.size()]);   // never executed
	F.f_malloc = a.here(); a.ori(4, 0, 77); a.ret();
	F.f_len = a.here(); a.ori(4, 0, 5); a.ret();
	F.f_work = a.here();
	for (size_t i = 0; i < body.size() / 2; i++) if ((body[i] >> 22) != (0x2c400000u >> 22)) a.raw(body[i]);
	a.ret();
	auto bl = [&](size_t at, uint64_t to) { const int64_t off = ((int64_t)to - (int64_t)(CODE_VA + at * 4)) >> 2; w[at] = 0x54000000u | (uint32_t)(off & 0xffff) << 10 | (uint32_t)((off >> 16) & 0x3ff); };
	bl(at_m, F.f_malloc); bl(at_l, F.f_len);
	w.push_back(0); // never executed
	return w;
}
Family make_family(Gen& g)
{
	Family F;
	auto body = alu(g, 2 + g.draw(6));
	if (g.chance(25)) F.gap = g.chance(50) ? 200 + g.draw(120) : g.draw(1500);
	const unsigned n = 1 + g.draw(3);
	for (unsigned i = 0; i < n; i++) {
		auto b = body;
		if (i) b[g.index(b.size())] = Asm::i12(0x02c00000, 4, 4, (int)g.draw(2000) + 1);
		auto w = build_code(g, F, b);
		if (i) {
			// F's function addresses must be the same in all variants
			switch (g.weighted({30, 50, 20})) {
			case 0: break;
			case 1: if (w.size() == F.code[0].size()) force_crc(w, w.size() - 1, crc_of(F.code[0])); break;
			default: w.push_back(0); force_crc(w, w.size() - 1, crc_of(F.code[0])); break;
			}
		}
		F.code.push_back(std::move(w));
	}
	return F;
}

enum Kind { CREATE, RUN, CALL, STEP1, ACCEL, EXTRA, CALL_EXTRA, EVICT, REINIT, POKE, DESTROY, KINDS };
const char* KIND[] = {"create", "run", "call", "step", "accelerate", "extra segment", "call extra", "evict", "re-init", "poke", "destroy"};
struct Op { Kind k; uint64_t a = 0, b = 0, c = 0; };

struct Slot {
	std::unique_ptr<Machine> m;
	std::shared_ptr<MachineOptions> opts;
	std::string file, printed;
	uint64_t id = 0;
	std::vector<uint64_t> obs;   // an observation per operation
	std::vector<std::string> what;
	std::vector<std::weak_ptr<loongarch::DecodedExecuteSegment>> segs;
};
struct UD { uint64_t id; std::string* out; };

uint64_t observe(Slot& s)
{
	if (!s.m) return 0;
	auto& r = s.m->cpu.registers();
	uint64_t h = 7;
	for (int i = 0; i < 32; i++) h = mix(h, r.get(i));
	h = hash_bytes(&r.getvr(0), 32 * 32, h);
	h = mix(h, r.pc);
	h = mix(h, s.m->instruction_counter());
	h = hash_bytes(s.m->memory.arena_ptr() + DATA_VA, 0x4000, h);
	h = mix(h, s.m->memory.execute_segments_count());
	return hash_bytes(s.printed.data(), s.printed.size(), h);
}
void perform(Slot& s, const Family& F, const Op& o, bool sharing_allowed)
{
	std::string note;
	uint64_t res = 0;
	auto words = [&](uint64_t v) -> const std::vector<uint32_t>& { return F.code[v % F.code.size()]; };
	try {
		switch (o.k) {
		case CREATE: {
			s.m.reset(); s.segs.clear(); s.printed.clear();
			s.id = o.c;
			s.opts = vm::options();
			s.opts->use_shared_execute_segments = sharing_allowed && !(o.b & 1);
			s.opts->memory_max = 0x200000 + ((o.b >> 1) & 1) * 0x100000;
			s.opts->stack_size = 0x8000; s.opts->brk_size = 0x1000;
			if (o.b & 8) {
				s.m = std::make_unique<Machine>(std::string_view{}, *s.opts);
				s.m->set_options(s.opts);
				s.m->memory.allocate_custom_arena(0x60000, DATA_VA, DATA_VA);
				s.m->cpu.init_execute_area(words(o.a).data(), CODE_VA, words(o.a).size() * 4);
				s.m->cpu.jump(CODE_VA);
			} else {
				Image im; im.code = words(o.a); im.code_va = CODE_VA; im.data_va = DATA_VA; im.data_size = 0x4000;
				im.syms = {{"malloc", F.f_malloc, 8}, {"__strlen_aligned", F.f_len, 8}, {"work", F.f_work, 16}};
				s.file = build(im);
				s.m = std::make_unique<Machine>(std::string_view(s.file), *s.opts);
				s.m->set_options(s.opts);
			}
			auto* ud = new UD{s.id, &s.printed};
			s.m->set_userdata(ud);
			break;
		}
		case RUN: if (s.m) { if (o.b) s.m->cpu.jump(CODE_VA); res = s.m->simulate(1 + o.a % 200, 0); } break;
		case STEP1: if (s.m) for (uint64_t i = 0; i < 1 + o.a % 6; i++) s.m->cpu.step_one(true); break;
		case CALL: if (s.m) res = s.m->vmcall<uint64_t, 5000>(o.a % 3 == 0 ? F.f_work : o.a % 3 == 1 ? F.f_malloc : F.f_len, (uint64_t)(o.a % 3 == 2 ? DATA_VA + 0x800 : o.b % 1000), o.c); break;
		case ACCEL: if (s.m) {
			if (o.a & 1) s.m->setup_accelerated_syscalls();
			else s.m->setup_accelerated_heap(DATA_VA + 0x1000, 0x1000);
			break;
		} break;
		case EXTRA: if (s.m && s.m->has_options()) {
			std::vector<uint32_t> w;
			Asm a(w, EXTRA_VA); a.addi_d(4, 4, (int)(o.a % 7)); a.ret();
			if (o.b & 1) { w.push_back(0); if (o.b & 2) w.push_back(0); std::vector<uint32_t> z = w; z[0] = Asm::i12(0x02c00000, 4, 4, 0); z.resize(3); z[2] = 0; force_crc(w, w.size() - 1, crc_of(z)); }
			s.segs.push_back({});
			auto& seg = s.m->memory.create_execute_segment(s.m->options(), w.data(), EXTRA_VA + 0x100 * (o.c % 3), w.size() * 4, false);
			s.segs.back() = s.m->memory.exec_segment_for(seg.exec_begin());
		} break;
		case CALL_EXTRA: if (s.m) res = s.m->vmcall<uint64_t, 100>(address_t(EXTRA_VA + 0x100 * (o.c % 3)), o.b); break;
		case EVICT: if (s.m) s.m->memory.evict_execute_segments(); break;
		case REINIT: if (s.m) { s.m->cpu.init_execute_area(words(o.a).data(), CODE_VA, words(o.a).size() * 4); s.m->cpu.jump(CODE_VA); } break;
		case POKE: if (s.m) s.m->memory.write<uint64_t>(DATA_VA + (o.a % 64) * 8, o.b); break;
		case DESTROY: if (s.m) { delete s.m->get_userdata<UD>(); s.m.reset(); } break;
		default: break;
		}
	} catch (const MachineException& e) { note = fmt("exception %d data 0x%lx", (int)e.type(), (unsigned long)e.data()); }
	if (s.m) if (auto p = s.m->memory.exec_segment_for(CODE_VA); !p->empty()) s.segs.push_back(p);
	uint64_t h = mix(observe(s), res);
	h = hash_bytes(note.data(), note.size(), h);
	s.obs.push_back(h);
	s.what.push_back(fmt("%s(%lu,%lu,%lu) -> 0x%lx %s; pc 0x%lx, a0 0x%lx, %lu instructions, printed %zu", KIND[o.k], (unsigned long)o.a, (unsigned long)o.b, (unsigned long)o.c, (unsigned long)res, note.c_str(),
		s.m ? (unsigned long)s.m->cpu.pc() : 0ul, s.m ? (unsigned long)s.m->cpu.reg(4) : 0ul, s.m ? (unsigned long)s.m->instruction_counter() : 0ul, s.printed.size()));
}
void handlers()
{
	static bool done = false;
	if (done) return;
	done = true;
	Machine::install_syscall_handler(NR_PRINT, [](Machine& m) { const std::string t = fmt("%lx;", (unsigned long)m.cpu.reg(4)); m.get_userdata<UD>()->out->append(t); });
	Machine::install_syscall_handler(NR_ID, [](Machine& m) { m.set_result(m.get_userdata<UD>()->id); });
}
Op draw_op(Gen& g, bool first, bool accel)
{
	Op o;
	const unsigned acc = accel ? 8 : 0;
	o.k = first ? CREATE : (Kind)g.weighted({14, 30, 14, 5, acc, 8, 8, 3, 6, 5, 7});
	o.a = g.draw(o.k == RUN ? 400 : 64);
	o.b = g.draw(o.k == CREATE ? 15 : 3);
	if (o.k == RUN) o.b = !g.chance(30);
	if (o.k == CREATE) { if (!g.chance(40)) o.a = 0; if (!g.chance(40)) o.b = g.chance(30) ? 8 : 0; }
	o.c = g.draw(1000);
	return o;
}
// the same operations on a machine alone, that shares nothing
void check_alone(const Family& F, const std::vector<Op>& ops, const Slot& s, size_t i, const char* how)
{
	Slot solo;
	for (size_t k = 0; k < ops.size(); k++) {
		perform(solo, F, ops[k], false);
		if (solo.obs[k] != s.obs[k]) {
			const std::string msg = fmt("machine %zu, operation %zu of %zu, %s\n  together: %s\n  alone:    %s", i, k, ops.size(), how, s.what[k].c_str(), solo.what[k].c_str());
			if (solo.m) perform(solo, F, Op{DESTROY}, false);
			fail(std::string("differs-") + KIND[ops[k].k], msg);
		}
	}
	if (solo.m) perform(solo, F, Op{DESTROY}, false);
}
} // namespace

PROP(share_history)
{
	handlers();
	const Family F = make_family(g);
	const size_t n = 1 + g.draw(4);
	std::list<Slot> slots(n);
	std::vector<Slot*> at;
	for (auto& s : slots) at.push_back(&s);
	std::vector<std::vector<Op>> ops(n);
	const size_t steps = 2 + g.draw(30);
	uint64_t shared = 0;
	for (size_t k = 0; k < steps; k++) {
		const size_t i = g.index(n);
		const Op o = draw_op(g, at[i]->m == nullptr, true);
		// Two machines now hold the same decoded code
		ops[i].push_back(o);
		perform(*at[i], F, o, true);
		for (size_t j = 0; j < n; j++) if (j != i && at[i]->m && at[j]->m) {
			auto p = at[i]->m->memory.exec_segment_for(CODE_VA);
			if (!p->empty() && p == at[j]->m->memory.exec_segment_for(CODE_VA)) shared++;
		}
	}
	std::vector<std::weak_ptr<loongarch::DecodedExecuteSegment>> weak;
	for (size_t i = 0; i < n; i++) {
		auto& s = *at[i];
		weak.insert(weak.end(), s.segs.begin(), s.segs.end());
		if (s.m) { ops[i].push_back(Op{DESTROY}); perform(s, F, ops[i].back(), true); }
	}
	for (auto& w : weak) if (!w.expired()) fail("kept-segment", fmt("decoded code is kept after the last of %zu machines is gone", n));
	for (size_t i = 0; i < n; i++) check_alone(F, ops[i], *at[i], i, "among other machines");
	if (shared) g.label("two machines share code");
	bool collide = false;
	for (size_t i = 1; i < F.code.size(); i++) if (crc_of(F.code[i]) == crc_of(F.code[0]) && F.code[i] != F.code[0]) collide = true;
	if (collide) g.label("programs with the same checksum");
	uint64_t h = n;
	for (auto& w : F.code) h = hash_bytes(w.data(), w.size() * 4, h);
	for (auto& s : slots) for (auto o : s.obs) h = mix(h, o);
	if (n > 1) g.nontrivial(h);
	if (g.want_sample()) g.sample(fmt("%zu machines, %zu programs, %zu operations, shared %lu times", n, F.code.size(), steps, (unsigned long)shared));
}

// Machines of one program use one copy of its decoded code when they may share it,
// and their own when one of them may not, or changed it
PROP(share_effective)
{
	handlers();
	Family F = make_family(g);
	struct One { Slot s; size_t code; bool sharing, big, changed = false; };
	std::list<One> live;
	const size_t steps = 2 + g.draw(12);
	std::string text;
	size_t pairs = 0, apart = 0;
	uint64_t h = steps;
	for (auto& w : F.code) h = hash_bytes(w.data(), w.size() * 4, h);
	for (size_t k = 0; k < steps; k++) {
		const unsigned what = live.empty() ? 0 : (unsigned)g.weighted({60, 20, 20});
		auto it = live.begin();
		if (what) std::advance(it, g.index(live.size()));
		h = mix(h, what);
		if (what == 1) {
			text += fmt("; destroy one of program %zu", it->code);
			perform(it->s, F, Op{DESTROY}, true);
			live.erase(it);
		} else if (what == 2) {
			// replaces the code of malloc
			text += fmt("; accelerate the heap of one of program %zu", it->code);
			perform(it->s, F, Op{ACCEL}, true);
			it->changed = true;
		} else {
			live.emplace_back();
			One& o = live.back();
			o.code = g.chance(60) ? 0 : g.index(F.code.size());
			o.big = g.chance(20); o.sharing = g.chance(85);
			h = mix(mix(mix(h, o.code), o.big), o.sharing);
			text += fmt("; %s program %zu%s", o.sharing ? "shared" : "own", o.code, o.big ? " with more memory" : "");
			perform(o.s, F, Op{CREATE, o.code, (o.sharing ? 0u : 1u) + (o.big ? 2u : 0u), k}, true);
		}
		for (auto a = live.begin(); a != live.end(); ++a) for (auto b = std::next(a); b != live.end(); ++b) {
			const auto p = a->s.m->memory.exec_segment_for(CODE_VA), q = b->s.m->memory.exec_segment_for(CODE_VA);
			const bool same = F.code[a->code] == F.code[b->code];
			const bool may = same && a->sharing && b->sharing && !a->changed && !b->changed;
			if (p == q && !may) fail("shared", fmt("two machines use the same decoded code, that must not%s", text.c_str()));
			if (!may || a->big != b->big) { apart++; continue; }
			// a different program with the same checksum may be the one that is shared
			bool other = false;
			for (auto& w : F.code) if (w != F.code[a->code] && crc_of(w) == crc_of(F.code[a->code])) other = true;
			if (other) continue;
			pairs++;
			if (p != q) fail("not-shared", fmt("two machines of one program decoded it twice%s", text.c_str()));
		}
	}
	for (auto& o : live) perform(o.s, F, Op{DESTROY}, true);
	if (pairs) { g.label("machines that share code"); g.nontrivial(h); }
	if (g.want_sample()) g.sample(fmt("%zu pairs that share, %zu apart%s", pairs, apart, text.c_str()));
}

PROP(share_threads)
{
	handlers();
#if defined(__SANITIZE_THREAD__)
	const bool accel = false;   // would install the (process-wide) system call handlers again
#else
	const bool accel = true;
#endif
	const Family F = make_family(g);
	const size_t n = 2 + g.draw(4);
	std::vector<Slot> slots(n);
	std::vector<std::vector<Op>> ops(n);
	for (auto& v : ops) {
		const size_t k = 1 + g.draw(12);
		for (size_t i = 0; i < k; i++) v.push_back(draw_op(g, i == 0, accel));
		v.push_back(Op{DESTROY});
	}
	std::atomic<size_t> ready{0};
	std::vector<std::thread> ts;
	for (size_t i = 0; i < n; i++) ts.emplace_back([&, i] {
		ready++;
		while (ready < n) {}
		for (auto& o : ops[i]) perform(slots[i], F, o, true);
	});
	for (auto& t : ts) t.join();
	for (auto& s : slots) for (auto& w : s.segs) if (!w.expired()) fail("kept-segment", fmt("decoded code is kept after the last of %zu machines is gone", n));
	for (size_t i = 0; i < n; i++) check_alone(F, ops[i], slots[i], i, "with others in other threads");
	uint64_t h = n;
	for (auto& w : F.code) h = hash_bytes(w.data(), w.size() * 4, h);
	for (auto& s : slots) for (auto o : s.obs) h = mix(h, o);
	g.nontrivial(h);
	if (g.want_sample()) g.sample(fmt("%zu threads, %zu programs", n, F.code.size()));
}

// Each thread starts decoding all kinds of instructions at the same time
PROP(share_crc)
{
	size_t n = g.weighted({40, 40, 20}) == 0 ? g.draw(24) : g.draw(300);
	if (g.chance(3)) n = g.draw(20000);
	const size_t off = g.draw(15);
	std::string s = g.bytes(std::min<size_t>(n, 64));
	const uint64_t seed = g.raw64();
	uint64_t x = seed;
	while (s.size() < n) { x = mix(x, s.size()); s.append((const char*)&x, 8); }
	s.resize(n);
	std::vector<uint8_t> buf(off + n + 8);
	uint8_t* p = buf.data() + off;
	memcpy(p, s.data(), n);
	const uint32_t want = ~crc_ref(p, n, ~0u);
	const uint32_t got = loongarch::util::crc32c(p, n);
	if (got != want) fail("crc", fmt("crc32c of %zu bytes at offset %zu: 0x%08x, should be 0x%08x", n, off, got, want));
	const uint32_t part = g.u32();
	const uint32_t got2 = loongarch::util::crc32c(part, p, n), want2 = crc_ref(p, n, part);
	if (got2 != want2) fail("crc-partial", fmt("crc32c from 0x%08x of %zu bytes at offset %zu: 0x%08x, should be 0x%08x", part, n, off, got2, want2));
	const size_t cut = g.draw(n);
	if (loongarch::util::crc32c(loongarch::util::crc32c(part, p, cut), p + cut, n - cut) != got2) fail("crc-split", fmt("crc32c in two parts, %zu + %zu", cut, n - cut));
	if (n) g.nontrivial(mix(mix(hash_bytes(p, n), off), part));
	if (g.want_sample()) g.sample(fmt("%zu bytes at offset %zu", n, off));
}

// Threads decode and run programs of all kinds of instructions in a fresh process
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <barrier>
namespace {
uint64_t run_prog(const prog::Program& p, bool shared, uint64_t limit, unsigned mode)
{
	auto o = vm::options();
	o->use_shared_execute_segments = shared;
	Machine m{std::string_view{}, *o};
	m.set_options(o);
	m.memory.allocate_custom_arena(p.lay.size, p.lay.code, p.lay.data);
	ref::CPU init = p.init;
	init.mem = nullptr;
	vm::load_state(m, init);
	memcpy(vm::arena(m) + p.lay.code, p.words.data(), p.words.size() * 4);
	memcpy(vm::arena(m) + p.lay.data, p.data.data(), p.data.size());
	uint64_t h = 1;
	try {
		m.cpu.init_execute_area(p.words.data(), p.lay.code, p.words.size() * 4);
		m.cpu.jump(p.lay.code);
		if (mode == 0) m.simulate(limit, 0);
		else for (uint64_t i = 0; i < limit / 8; i++) m.cpu.step_one(true);
	} catch (const MachineException& e) { h = mix(h, e.type()); h = mix(h, e.data()); }
	auto& r = m.cpu.registers();
	for (int i = 0; i < 32; i++) h = mix(h, r.get(i));
	h = hash_bytes(&r.getvr(0), 32 * 32, h);
	h = mix(h, r.pc);
	h = mix(h, m.instruction_counter());
	return hash_bytes(vm::arena(m) + p.lay.data, p.lay.size - p.lay.data, h);
}
} // namespace

PROP(share_decode)
{
	const size_t n = 2 + g.draw(4), k = 1 + g.draw(3);
	prog::Opts o;
	o.sys_pct = 0; o.max_len = 300;
	std::vector<prog::Program> progs;
	for (size_t i = 0; i < k; i++) {
		progs.push_back(prog::make(g, o));
		for (auto& w : progs.back().words) if ((w & 0xfffff000) == 0x6000) w = prog::NOP_WORD;   // reading the time
	}
	struct Job { size_t prog; bool shared; uint64_t limit; unsigned mode; };
	std::vector<std::vector<Job>> jobs(n);
	for (auto& v : jobs) for (size_t i = 0, c = 1 + g.draw(4); i < c; i++) v.push_back({g.index(k), !g.chance(40), 50 + g.draw(600), (unsigned)g.chance(15)});
	struct Out { char msg[400]; volatile int done; uint64_t hash; };
	auto* out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(stdout);
	const pid_t pid = fork();
	if (pid == 0) {
		std::vector<std::vector<uint64_t>> res(n);
		{
			std::barrier<> start((ptrdiff_t)n);
			std::vector<std::thread> ts;
			for (size_t i = 0; i < n; i++) ts.emplace_back([&, i] {
				start.arrive_and_wait();
				for (auto& j : jobs[i]) res[i].push_back(run_prog(progs[j.prog], j.shared, j.limit, j.mode));
			});
			for (auto& t : ts) t.join();
		}
		for (size_t i = 0; i < n; i++) for (size_t q = 0; q < jobs[i].size(); q++) {
			auto& j = jobs[i][q];
			const uint64_t alone = run_prog(progs[j.prog], false, j.limit, j.mode);
			out->hash = mix(out->hash, alone);
			if (alone != res[i][q] && !out->msg[0])
				snprintf(out->msg, sizeof out->msg, "thread %zu of %zu, run %zu of program %zu (%s, limit %lu): final state differs from the same run alone", i, n, q, j.prog, j.mode ? "single-stepped" : "simulate", (unsigned long)j.limit);
		}
		out->done = 1;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	const int done = out->done;
	const std::string msg = out->msg;
	const uint64_t h = out->hash;
	munmap(out, sizeof(Out));
	if (!done) {
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) return;
		fail("crash", fmt("%zu threads decoding and running %zu programs in a fresh process: the process died (status 0x%x)", n, k, st));
	}
	if (!msg.empty()) fail("differs", msg);
	g.nontrivial(h);
	if (g.want_sample()) g.sample(fmt("%zu threads, %zu programs", n, k));
}
