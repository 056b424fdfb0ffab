// Small choice-sequence property-based testing engine.
//
// A case is a pure function of a tape of choices.  In generation mode the tape
// is drawn from a seeded generator and recorded; in replay mode it is read back
// (missing entries read as 0).  A failing tape is shrunk by deleting, zeroing
// and reducing entries, every candidate running in a forked child so that
// crashes, sanitizer aborts and hangs shrink like ordinary failures do.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Failure : std::exception {
	std::string sig, msg;
	Failure(std::string s, std::string m) : sig(std::move(s)), msg(std::move(m)) {}
	const char* what() const noexcept override { return msg.c_str(); }
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// Report a violation of the property.  `sig` names what failed (used to match
// known findings); `msg` explains it.
[[noreturn]] void fail(const std::string& sig, const std::string& msg);

struct Gen {
	// One choice in [0, max]; 0 is the simplest.
	uint64_t draw(uint64_t max);
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
	bool chance(unsigned pct) { return draw(99) >= 100 - pct; }   // 0 -> false
	uint64_t u64();            // any value, biased to interesting ones
	uint64_t raw64() { return draw(~0ull); }
	uint32_t u32() { return uint32_t(u64()); }
	size_t index(size_t n) { return size_t(draw(n - 1)); }
	template <typename T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
	template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + index(v.size())); }
	// index chosen by weight
	size_t weighted(std::initializer_list<unsigned> w);
	std::string bytes(size_t n);
	size_t drawn() const { return m_pos; }

	// classification of the current case
	void label(const char* name);
	void nontrivial(uint64_t hash);
	bool want_sample() const;
	void sample(const std::string& s);

	// engine internals
	size_t m_pos = 0;
	bool m_replay = false;
	uint64_t m_s[2] = {1, 2};
	uint64_t rng();
};

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
	return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}

struct Prop {
	const char* name;
	void (*fn)(Gen&);
};
void register_prop(const Prop&);
struct Reg { Reg(const char* n, void (*f)(Gen&)) { register_prop({n, f}); } };

#define PROP(name_) \
	static void prop_##name_(pbt::Gen& g); \
	static pbt::Reg reg_##name_(#name_, prop_##name_); \
	static void prop_##name_(pbt::Gen& g)

} // pbt
