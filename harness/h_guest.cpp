// Host-side views of guest library objects: std::string, std::vector, Rust String and Vec,
// and the scoped objects on the guest heap.
#include "elfimg.hpp"
#include <libloong/guest_datatypes.hpp>
#include <map>
#include <optional>
using namespace pbt;
using namespace vm;
using namespace elfimg;
using namespace loongarch;

namespace {
constexpr uint64_t HEAP = 0x100000;
struct World {
	Loaded L; uint64_t total; std::string log; uint64_t h = 0; uint64_t func = 0, exit = 0;
	std::map<uint64_t, uint64_t> reached;   // heap chunks reachable from the live objects
	Machine& m() { return *L; }
	uint64_t rd(uint64_t a) { return m().memory.read<uint64_t>(a); }
	void wr(uint64_t a, uint64_t v) { m().memory.write<uint64_t>(a, v); }
	void reach(uint64_t p, uint64_t need, const char* what)
	{
		const uint64_t n = m().arena().size(p);
		if (n == 0) fail("chunk", fmt("%s: 0x%lx is not an allocation", what, (unsigned long)p) + log);
		if (n < need) fail("chunk:size", fmt("%s: the allocation at 0x%lx has %lu bytes, %lu are in use", what, (unsigned long)p, (unsigned long)n, (unsigned long)need) + log);
		if (!reached.emplace(p, n).second) fail("chunk:shared", fmt("%s: the allocation at 0x%lx has two owners", what, (unsigned long)p) + log);
	}
	// what guest code sees
	std::string str(uint64_t at)
	{
		const uint64_t p = rd(at), len = rd(at + 8);
		if (p == at + 16) { if (len > 15) fail("sso:len", fmt("a string of %lu characters inside the object", (unsigned long)len) + log); }
		else { const uint64_t cap = rd(at + 16); if (cap < len) fail("str:cap", fmt("string capacity %lu, length %lu", (unsigned long)cap, (unsigned long)len) + log); reach(p, cap + 1, "string"); }
		if (len > 1 << 20) fail("str:len", fmt("string of %lu characters", (unsigned long)len) + log);
		std::string s(len, 0);
		if (len) m().memory.copy_from_guest(s.data(), p, len);
		if (m().memory.read<uint8_t>(p + len)) fail("str:nul", "a string is not zero-terminated" + log);
		return s;
	}
	template <typename F> size_t vec(uint64_t at, uint64_t esz, F&& f)
	{
		const uint64_t b = rd(at), e = rd(at + 8), c = rd(at + 16);
		if (b > e || e > c || (e - b) % esz || (c - b) % esz) fail("vec", fmt("vector {0x%lx, 0x%lx, 0x%lx} of elements of %lu bytes", (unsigned long)b, (unsigned long)e, (unsigned long)c, (unsigned long)esz) + log);
		if (b == 0) return 0;
		reach(b, c - b, "vector");
		for (uint64_t p = b; p < e; p += esz) f(p);
		return (e - b) / esz;
	}
	std::string rstr(uint64_t at)
	{
		const uint64_t cap = rd(at), p = rd(at + 8), len = rd(at + 16);
		if (len > cap) fail("rstr:cap", fmt("Rust string capacity %lu, length %lu", (unsigned long)cap, (unsigned long)len) + log);
		if (cap) reach(p, cap, "Rust string");
		std::string s(len, 0);
		if (len) m().memory.copy_from_guest(s.data(), p, len);
		return s;
	}
	template <typename F> void rvec(uint64_t at, uint64_t esz, F&& f)
	{
		const uint64_t cap = rd(at), p = rd(at + 8), len = rd(at + 16);
		if (len > cap) fail("rvec:cap", fmt("Rust vector capacity %lu, length %lu", (unsigned long)cap, (unsigned long)len) + log);
		if (cap) reach(p, cap * esz, "Rust vector");
		for (uint64_t i = 0; i < len; i++) f(p + i * esz);
	}
	// guest code's allocator and string
	uint64_t galloc(uint64_t n) { return m().arena().malloc(n); }
	bool gassign(Gen& g, uint64_t at, const std::string& s)
	{
		const uint64_t p = rd(at);
		const bool local = p == at + 16;
		uint64_t cap = local ? 15 : rd(at + 16);
		const bool shrink = !local && s.size() <= 15 && g.chance(30);
		if (s.size() > cap || (g.chance(25) && !shrink)) {
			const uint64_t ncap = std::max<uint64_t>(s.size(), 16) + g.draw(40);
			const uint64_t q = galloc(ncap + 1);
			if (!q) return false;
			if (!local) m().arena().free(p);
			wr(at, q); wr(at + 16, ncap);
		} else if (shrink) { m().arena().free(p); wr(at, at + 16); }
		m().memory.copy_to_guest(rd(at), s.c_str(), s.size() + 1);
		wr(at + 8, s.size());
		return true;
	}
};
World* W;
std::string text(Gen& g)
{
	const unsigned k = g.weighted({35, 35, 20, 10});
	return g.bytes(k == 0 ? g.draw(14) : k == 1 ? 13 + g.draw(6) : k == 2 ? g.draw(100) : g.draw(2000));
}
std::string brief(const std::string& s) { return fmt("%zu bytes", s.size()); }

// A live object and its model
struct Obj {
	virtual ~Obj() {}
	virtual void op(Gen& g) = 0;        // may raise; the model must then still agree, or be empty
	virtual void check() = 0;
	virtual uint64_t at() = 0;
	virtual uint64_t words() = 0;
	virtual bool scoped() { return true; }
	uint64_t self_size = 0;
};
template <typename F> bool attempt(const char* what, F&& f)
{
	try { f(); return true; }
	catch (const MachineException& e) { W->log += fmt(" raised %s", e.what()); if (e.type() != OUT_OF_MEMORY && e.type() != PROTECTION_FAULT) fail("exc", "unexpected exception" + W->log); return false; }
	catch (const std::bad_alloc&) { W->log += " raised bad_alloc"; return false; }
}
// enough room for anything the operation might want?
bool roomy() { return W->m().arena().bytes_free() > W->total / 2 + 20000; }
void must(bool ok) { if (!ok && roomy()) fail("oom", "failed although the heap has room" + W->log); }

struct Str : Obj {
	ScopedCppString s; std::string v;
	Str(const std::string& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 4; }
	void op(Gen& g) override
	{
		const std::string t = text(g);
		switch (g.draw(5)) {
		case 0: case 1: W->log += "\n  string = " + brief(t); if (attempt("=", [&] { s = std::string_view(t); })) v = t; else { must(false); v = ""; const uint64_t a = at(); if (W->rd(a) == 0) W->wr(a, a + 16), W->wr(a + 16, 0); } break;
		case 2: W->log += "\n  set_string " + brief(t); if (attempt("set", [&] { s->set_string(W->m(), s.address(), t.data(), t.size(), g.chance(50)); })) v = t; else { must(false); v = ""; const uint64_t a = at(); W->wr(a, a + 16), W->wr(a + 16, 0); } break;
		case 3: W->log += "\n  the guest assigns " + brief(t); if (W->gassign(g, at(), t)) v = t; break;
		case 4: {
			// assigned from a string on the host: only short ones own nothing
			const std::string u = t.substr(0, 15);
			W->log += "\n  string = host string of " + brief(u);
			if (attempt("host", [&] { GuestStdString hs(W->m(), u); s = hs; })) v = u;
			break; }
		default: {
			W->log += "\n  move-assigned from " + brief(t);
			std::optional<Str> other;
			if (attempt("other", [&] { other.emplace(t); })) { s = std::move(other->s); v = t; }
			break; }
		}
	}
	void check() override
	{
		W->reach(s.address(), 32, "scoped string");
		if (W->str(s.address()) != v) fail("string", "the guest sees another string" + W->log);
		if (s->to_string(W->m()) != v) fail("to_string", "to_string() is not the string" + W->log);
		if (s->to_view(W->m()) != v) fail("to_view", "to_view() is not the string" + W->log);
		if (s->size() != v.size() || s->empty() != v.empty()) fail("size", "size()" + W->log);
		if (v.size() > 3) { bool t = false; try { s->to_string(W->m(), v.size() - 1); } catch (const std::exception&) { t = true; } if (!t && v.size() > 16) fail("max_len", "max_len is not observed" + W->log); }
	}
};
template <typename T> T plain(Gen& g) { if constexpr (sizeof(T) <= 8) return (T)g.u64(); else { T t; const std::string b = g.bytes(sizeof t); memcpy(&t, b.data(), sizeof t); return t; } }
struct P20 { uint32_t a[5]; bool operator==(const P20&) const = default; };

template <typename T> struct Vec : Obj {
	ScopedCppVector<T> s; std::vector<T> v;
	Vec(const std::vector<T>& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	static std::vector<T> some(Gen& g) { std::vector<T> t(g.chance(10) ? g.draw(600) : g.draw(10)); for (auto& x : t) x = plain<T>(g); return t; }
	void op(Gen& g) override
	{
		auto& m = W->m();
		const char* n = typeid(T).name();
		switch (g.draw(10)) {
		case 0: { auto t = some(g); W->log += fmt("\n  vector<%s> = %zu elements", n, t.size()); if (attempt("=", [&] { s = t; })) v = t; else { must(false); v.clear(); } break; }
		case 1: { auto t = some(g); W->log += fmt("\n  assign %zu elements", t.size()); if (attempt("assign", [&] { if (g.chance(50)) s->assign(m, t); else s->assign(m, t.data(), t.size()); })) v = t; else { must(false); v.clear(); } break; }
		case 2: case 3: { T x = plain<T>(g); W->log += "\n  push_back"; if (attempt("push", [&] { if (g.chance(50)) s->push_back(m, x); else s->push_back(m, std::move(x)); })) v.push_back(x); else must(false); break; }
		case 4: { W->log += "\n  pop_back"; bool t = false; try { s->pop_back(m); } catch (const std::out_of_range&) { t = true; } if (t != v.empty()) fail("pop", "pop_back of an empty vector must raise, of others not" + W->log); if (!v.empty()) v.pop_back(); break; }
		case 5: { auto t = some(g); W->log += fmt("\n  append %zu elements", t.size()); if (attempt("append", [&] { s->append(m, t.data(), t.size()); })) v.insert(v.end(), t.begin(), t.end()); else must(false); break; }
		case 6: W->log += "\n  clear"; s->clear(m); v.clear(); break;
		case 7: { const size_t k = g.chance(50) ? g.draw(20) : v.size() + g.draw(8); W->log += fmt("\n  resize %zu", k); if (attempt("resize", [&] { s->resize(m, k); })) v.resize(k); else must(false); break; }
		case 8: { const size_t k = g.draw(g.chance(20) ? 4000 : 40); W->log += fmt("\n  reserve %zu", k); const size_t cap = s->capacity(); if (attempt("reserve", [&] { s->reserve(m, k); })) { if (s->capacity() < std::max(k, cap)) fail("reserve", "capacity is too small" + W->log); } else must(false); break; }
		case 9: { if (v.empty()) break; const size_t i = g.index(v.size()); T x = plain<T>(g); W->log += fmt("\n  element %zu", i); if (g.chance(50)) s->at(m, i) = x; else m.memory.copy_to_guest(s->address_at(i), &x, sizeof x); v[i] = x; break; }
		default: { auto t = some(g); W->log += fmt("\n  move-assigned from %zu elements", t.size()); std::optional<Vec<T>> o; if (attempt("other", [&] { o.emplace(t); })) { s = std::move(o->s); v = t; } break; }
		}
	}
	void check() override
	{
		auto& m = W->m();
		W->reach(s.address(), 24, "scoped vector");
		std::vector<T> got;
		W->vec(s.address(), sizeof(T), [&](uint64_t p) { T x; m.memory.copy_from_guest(&x, p, sizeof x); got.push_back(x); });
		if (got != v) fail("vector", "the guest sees other elements" + W->log);
		if (s->size() != v.size() || s->empty() != v.empty() || s->capacity() < v.size()) fail("vsize", "size() or capacity()" + W->log);
		if (s->to_vector(m) != v) fail("to_vector", "to_vector() is not the contents" + W->log);
		if (!std::equal(v.begin(), v.end(), s->begin(m), s->end(m))) fail("iter", "begin()/end()" + W->log);
		if (!v.empty()) {
			if (!(s->at(m, v.size() - 1) == v.back()) || !(s->at(m, 0) == v.front())) fail("at", "at()" + W->log);
			if (s->address_at(v.size() - 1) != s->data() + (v.size() - 1) * sizeof(T)) fail("address_at", "address_at()" + W->log);
		}
		bool t = false; try { s->at(m, v.size()); } catch (const std::out_of_range&) { t = true; }
		if (!t) fail("at:range", "at() beyond the end did not raise" + W->log);
	}
};
struct StrVec : Obj {
	ScopedCppVector<GuestStdString> s; std::vector<std::string> v;
	StrVec(const std::vector<std::string>& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	void op(Gen& g) override
	{
		auto& m = W->m();
		const std::string t = text(g);
		switch (g.draw(7)) {
		case 0: case 1: W->log += "\n  vector<string> push_back " + brief(t); if (attempt("push", [&] { s->push_back(m, std::string_view(t)); })) v.push_back(t); else must(false); break;
		case 2: W->log += "\n  vector<string> pop_back"; if (!v.empty()) { s->pop_back(m); v.pop_back(); } break;
		case 3: W->log += "\n  vector<string> clear"; s->clear(m); v.clear(); break;
		case 4: { const size_t k = g.chance(50) ? g.draw(8) : v.size() + g.draw(5); W->log += fmt("\n  vector<string> resize %zu", k); if (attempt("resize", [&] { s->resize(m, k); })) v.resize(k); else must(false); break; }
		case 5: { const size_t k = g.draw(40); W->log += fmt("\n  vector<string> reserve %zu", k); if (!attempt("reserve", [&] { s->reserve(m, k); })) must(false); break; }
		case 6: { if (v.empty()) break; const size_t i = g.index(v.size()); W->log += fmt("\n  the guest assigns element %zu, ", i) + brief(t); if (W->gassign(g, s->address_at(i), t)) v[i] = t; break; }
		default: {
			// a copy on the host of a short string
			const std::string u = t.substr(0, 15);
			W->log += "\n  vector<string> push_back of a host string, " + brief(u);
			GuestStdString hs(m, u);
			if (attempt("push", [&] { if (g.chance(50)) s->push_back(m, hs); else s->push_back(m, std::move(hs)); })) v.push_back(u); else must(false);
		} }
	}
	void check() override
	{
		auto& m = W->m();
		W->reach(s.address(), 24, "scoped vector");
		std::vector<std::string> got;
		W->vec(s.address(), 32, [&](uint64_t p) { got.push_back(W->str(p)); });
		if (got != v) fail("strvec", "the guest sees other strings" + W->log);
		if (s->size() != v.size()) fail("vsize", "size()" + W->log);
		if (s->to_string_vector(m) != v) fail("to_string_vector", "to_string_vector() is not the contents" + W->log);
		if (!v.empty() && s->at(m, v.size() - 1).to_string(m) != v.back()) fail("at", "at()" + W->log);
	}
};
struct VecVec : Obj {
	ScopedCppVector<GuestStdVector<uint32_t>> s; std::vector<std::vector<uint32_t>> v;
	VecVec() : s(W->m()) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	void op(Gen& g) override
	{
		auto& m = W->m();
		switch (g.draw(6)) {
		case 0: case 1: { auto t = Vec<uint32_t>::some(g); W->log += fmt("\n  vector<vector> push_back %zu", t.size()); if (attempt("push", [&] { s->push_back(m, t); })) v.push_back(t); else must(false); break; }
		case 2: W->log += "\n  vector<vector> pop_back"; if (!v.empty()) { s->pop_back(m); v.pop_back(); } break;
		case 3: W->log += "\n  vector<vector> clear"; s->clear(m); v.clear(); break;
		case 4: { const size_t k = g.draw(30); W->log += fmt("\n  vector<vector> reserve %zu", k); if (!attempt("reserve", [&] { s->reserve(m, k); })) must(false); break; }
		case 5: { const size_t k = g.chance(50) ? g.draw(6) : v.size() + g.draw(5); W->log += fmt("\n  vector<vector> resize %zu", k); if (attempt("resize", [&] { s->resize(m, k); })) v.resize(k); else must(false); break; }
		default: { if (v.empty()) break; const size_t i = g.index(v.size()); const uint32_t x = g.u32(); W->log += fmt("\n  inner push_back %zu", i); if (attempt("inner", [&] { s->at(m, i).push_back(m, x); })) v[i].push_back(x); else must(false); break; }
		}
	}
	void check() override
	{
		auto& m = W->m();
		W->reach(s.address(), 24, "scoped vector");
		std::vector<std::vector<uint32_t>> got;
		W->vec(s.address(), 24, [&](uint64_t p) { got.emplace_back(); W->vec(p, 4, [&](uint64_t q) { got.back().push_back(m.memory.read<uint32_t>(q)); }); });
		if (got != v) fail("vecvec", "the guest sees other vectors" + W->log);
		if (s->size() != v.size()) fail("vsize", "size()" + W->log);
		for (size_t i = 0; i < v.size(); i++) if (s->at(m, i).to_vector(m) != v[i]) fail("to_vector", "inner to_vector()" + W->log);
	}
};
struct RStr : Obj {
	ScopedRustString s; std::string v;
	RStr(const std::string& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	void op(Gen& g) override
	{
		auto& m = W->m();
		const std::string t = text(g);
		switch (g.draw(2)) {
		case 0: W->log += "\n  Rust string = " + brief(t); if (attempt("set", [&] { s->set_string(m, t.data(), t.size(), g.chance(50)); })) v = t; else { must(false); v = ""; } break;
		case 1: {
			// the guest writes its own, possibly empty with a dangling pointer
			W->log += "\n  the guest assigns a Rust string, " + brief(t);
			const uint64_t cap = t.empty() ? g.draw(1) * 20 : t.size() + g.draw(30);
			const uint64_t p = cap ? W->galloc(cap) : 1;
			if (!p) break;
			if (W->rd(at())) m.arena().free(W->rd(at() + 8));
			W->wr(at(), cap); W->wr(at() + 8, p); W->wr(at() + 16, t.size());
			if (t.size()) m.memory.copy_to_guest(p, t.data(), t.size());
			v = t; break; }
		default: { W->log += "\n  Rust string move-assigned"; std::optional<RStr> o; if (attempt("other", [&] { o.emplace(t); })) { s = std::move(o->s); v = t; } }
		}
	}
	void check() override
	{
		W->reach(s.address(), 24, "scoped Rust string");
		if (W->rstr(s.address()) != v) fail("rstring", "the guest sees another Rust string" + W->log);
		if (s->to_string(W->m()) != v || s->to_view(W->m()) != v || s->size() != v.size()) fail("rto_string", "to_string() is not the string" + W->log);
	}
};
struct RVec : Obj {
	ScopedArenaObject<GuestRustVector<uint64_t>> s; std::vector<uint64_t> v;
	RVec(const std::vector<uint64_t>& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	void op(Gen& g) override
	{
		auto& m = W->m();
		auto t = Vec<uint64_t>::some(g);
		switch (g.draw(2)) {
		case 0: W->log += fmt("\n  Rust vector = %zu elements", t.size()); if (attempt("assign", [&] { s->assign(m, t); })) v = t; else { must(false); v.clear(); } break;
		case 1: {
			W->log += fmt("\n  the guest assigns a Rust vector of %zu elements", t.size());
			const uint64_t cap = t.size() + g.draw(5);
			const uint64_t p = cap ? W->galloc(cap * 8) : 8;
			if (!p) break;
			if (W->rd(at())) m.arena().free(W->rd(at() + 8));
			W->wr(at(), cap); W->wr(at() + 8, p); W->wr(at() + 16, t.size());
			if (t.size()) m.memory.copy_to_guest(p, t.data(), t.size() * 8);
			v = t; break; }
		default: if (!v.empty()) { const size_t i = g.index(v.size()); const uint64_t x = g.u64(); W->log += fmt("\n  Rust vector element %zu", i); s->at(m, i) = x; v[i] = x; }
		}
	}
	void check() override
	{
		auto& m = W->m();
		W->reach(s.address(), 24, "scoped Rust vector");
		std::vector<uint64_t> got;
		W->rvec(s.address(), 8, [&](uint64_t p) { got.push_back(W->rd(p)); });
		if (got != v) fail("rvector", "the guest sees another Rust vector" + W->log);
		if (s->size() != v.size() || s->to_vector(m) != v) fail("rto_vector", "to_vector() is not the contents" + W->log);
		bool t = false; try { s->at(m, v.size()); } catch (const std::out_of_range&) { t = true; }
		if (!t) fail("at:range", "at() beyond the end did not raise" + W->log);
	}
};
struct RStrVec : Obj {
	ScopedArenaObject<GuestRustVector<GuestRustString>> s; std::vector<std::string> v;
	RStrVec(const std::vector<std::string>& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 3; }
	void op(Gen& g) override { if (v.empty()) return; const size_t i = g.index(v.size()); const std::string t = text(g); W->log += fmt("\n  Rust string %zu in a vector = ", i) + brief(t); if (attempt("set", [&] { s->at(W->m(), i).set_string(W->m(), t); })) v[i] = t; else { must(false); v[i] = ""; } }
	void check() override
	{
		W->reach(s.address(), 24, "scoped Rust vector");
		std::vector<std::string> got;
		W->rvec(s.address(), 24, [&](uint64_t p) { got.push_back(W->rstr(p)); });
		if (got != v) fail("rstrvec", "the guest sees other Rust strings" + W->log);
	}
};
struct Pod : Obj {
	ScopedArenaObject<P20> s; P20 v;
	Pod(const P20& t) : s(W->m(), t), v(t) {}
	uint64_t at() override { return s.address(); }
	uint64_t words() override { return 2; }
	void op(Gen& g) override { const P20 t = plain<P20>(g); W->log += "\n  struct assigned"; if (g.chance(50)) s = t; else *s = t; v = t; }
	void check() override { W->reach(s.address(), sizeof(P20), "scoped struct"); P20 x; W->m().memory.copy_from_guest(&x, s.address(), sizeof x); if (!(x == v) || !(*s == v)) fail("struct", "the guest sees another struct" + W->log); }
};

std::unique_ptr<Obj> make(Gen& g)
{
	std::unique_ptr<Obj> o;
	std::vector<std::string> ss(g.draw(5)); for (auto& s : ss) s = text(g);
	const unsigned k = g.draw(9);
	static const char* names[] = {"string", "vector<int>", "vector<string>", "vector<vector>", "Rust string", "Rust vector", "Rust vector of strings", "struct", "vector<struct>", "vector<char>"};
	W->log += fmt("\n  new %s", names[k]);
	const bool ok = attempt("new", [&] {
		switch (k) {
		case 0: o = std::make_unique<Str>(text(g)); break;
		case 1: o = std::make_unique<Vec<int>>(Vec<int>::some(g)); break;
		case 2: o = std::make_unique<StrVec>(ss); break;
		case 3: o = std::make_unique<VecVec>(); break;
		case 4: o = std::make_unique<RStr>(text(g)); break;
		case 5: o = std::make_unique<RVec>(Vec<uint64_t>::some(g)); break;
		case 6: o = std::make_unique<RStrVec>(ss); break;
		case 7: o = std::make_unique<Pod>(plain<P20>(g)); break;
		case 8: o = std::make_unique<Vec<P20>>(Vec<P20>::some(g)); break;
		default: o = std::make_unique<Vec<char>>(Vec<char>::some(g)); break;
		}
	});
	must(ok);
	return o;
}
void setup(Gen& g, World& w, uint64_t total)
{
	W = &w;
	Image im; Asm a(im);
	a.stop();
	w.func = a.here();
	a.li(T0, 0x40000); for (int i = 0; i < 8; i++) a.st_d(A0 + i, T0, 8 * i); a.ret();
	w.exit = a.here(); a.stop();
	w.L = load(im, 0x200000);
	w.m().memory.set_exit_address(w.exit);
	w.total = total;
	w.m().setup_accelerated_heap(HEAP, total);
	w.log = fmt("\n  heap of %lu bytes", (unsigned long)total);
	(void)g;
}
} // namespace

PROP(guest_objects)
{
	World w;
	setup(g, w, g.pick({(uint64_t)0x80000, (uint64_t)0x80000, (uint64_t)4096, (uint64_t)1024, (uint64_t)200}));
	std::vector<std::unique_ptr<Obj>> objs;
	auto all = [&] {
		w.reached.clear();
		for (auto& o : objs) o->check();
		uint64_t sum = 0; for (auto& [p, n] : w.reached) sum += n;
		if (sum != w.m().arena().bytes_used()) fail("leak", fmt("%zu bytes of the heap are in use, the objects account for %lu", w.m().arena().bytes_used(), (unsigned long)sum) + w.log);
	};
	const unsigned n = 1 + g.draw(25); unsigned ops = 0;
	for (unsigned i = 0; i < n; i++) {
		const unsigned k = objs.empty() ? 0 : g.weighted({15, 70, 8, 7});
		if (k == 0) { if (auto o = make(g)) objs.push_back(std::move(o)); }
		else if (k == 1) { objs[g.index(objs.size())]->op(g); ops++; }
		else if (k == 2) { w.log += "\n  destroyed"; objs.erase(objs.begin() + g.index(objs.size())); }
		else {
			// passed to a function: by address, or a string of its own
			const std::string t = text(g);
			w.log += "\n  call with a string of " + brief(t);
			auto& m = w.m();
			attempt("call", [&] {
				GuestStdString gs(m, t);
				const bool more = g.chance(50);
				const std::string filler = g.bytes(g.draw(40));
				if (more) m.vmcall(w.func, filler, gs, (int)5); else m.vmcall(w.func, gs);
				const uint64_t p = w.rd(0x40000 + (more ? 8 : 0));
				const uint64_t q = w.rd(p), len = w.rd(p + 8);
				if (len != t.size()) fail("call:len", "the string arrives with another length" + w.log);
				if (t.size() <= 15 ? q != p + 16 : q != gs.ptr) fail("call:ptr", fmt("the string at 0x%lx points to 0x%lx", (unsigned long)p, (unsigned long)q) + w.log);
				std::string s(len, 0); m.memory.copy_from_guest(s.data(), q, len);
				if (s != t || m.memory.read<uint8_t>(q + len)) fail("call:str", "the string arrives with other contents" + w.log);
				gs.free(m);
			});
		}
		w.h = hash_bytes(w.log.data(), w.log.size());
		all();
	}
	while (!objs.empty()) objs.erase(objs.begin() + g.index(objs.size()));
	if (w.m().arena().bytes_used()) fail("leak:end", fmt("%zu bytes of the heap are in use after every object is gone", w.m().arena().bytes_used()) + w.log);
	if (ops > 2) g.nontrivial(w.h);
	if (w.total < 5000) g.label("~small heap");
	if (g.want_sample()) g.sample(w.log.substr(1));
}

// Whatever the guest writes over its objects, the host only ever sees exceptions,
// and changes nothing outside the guest's writable memory
PROP(guest_hostile)
{
	World w;
	setup(g, w, g.pick({(uint64_t)4096, (uint64_t)0x20000}));
	auto& m = w.m();
	uint8_t* mem = vm::arena(m);
	const uint64_t ro = m.memory.rodata_start(), data = m.memory.data_start();
	unsigned calm = 0, raised = 0;
	{
		std::vector<std::unique_ptr<Obj>> objs;
		for (unsigned i = 1 + g.draw(2); i > 0; i--) if (auto o = make(g)) objs.push_back(std::move(o));
		std::vector<uint8_t> before(mem + ro, mem + data);
		for (unsigned i = 1 + g.draw(6); i > 0 && !objs.empty(); i--) {
			auto& o = *objs[g.index(objs.size())];
			const uint64_t a = o.at();
			for (unsigned k = 1 + g.draw(3); k > 0; k--) {
				const uint64_t slot = a + 8 * g.draw(o.words() - 1);
				const uint64_t v = g.pick<uint64_t>({0, 1, 8, a, a + 16, w.rd(a), w.rd(a + 8), w.rd(a) - 8, w.rd(a) + g.draw(100), m.memory.arena_size() - g.draw(40), data - g.draw(40), ro + g.draw(100), ~0ull - g.draw(40), 1ull << 63, g.u64(), HEAP + 16 * g.draw(200)});
				w.log += fmt("\n  word %lu of the object at 0x%lx = 0x%lx", (unsigned long)(slot - a) / 8, (unsigned long)a, (unsigned long)v);
				try { w.wr(slot, v); } catch (const MachineException&) {}
			}
			w.log += "\n  operation";
			try { if (g.chance(70)) o.op(g); else o.check(); calm++; }
			catch (const Failure& f) { calm++; }      // the model does not apply any more
			catch (const std::exception& e) { w.log += fmt(" raised %s", e.what()); raised++; }
			if (memcmp(before.data(), mem + ro, data - ro)) fail("rodata", "read-only memory changed" + w.log);
		}
		w.log += "\n  destruction";
	}
	w.h = hash_bytes(w.log.data(), w.log.size());
	g.nontrivial(w.h);
	if (raised) g.label("~raised"); if (calm) g.label("~went through");
	if (g.want_sample()) g.sample(w.log.substr(1));
}
