// U03: PackedVector under sequences of operations, against an array with one byte per element.
#include "pbt.hpp"
#include <map>
#include "math/packed-vector.hpp"
#include <cstdlib>
#include <new>
using namespace pbt; using namespace math;
// No allocation of more than 2^40 bytes is tried: it fails as it does without sanitizers.
void* operator new(size_t n) { void* p = n > ((size_t)1 << 40) ? nullptr : std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
struct Model { std::vector<int> v; size_t n = 0; }; // v: one entry per stored slot, -1 = unspecified
template<int B> static void run(Src& s, Case& c)
{
	const size_t per = 8 / B; const int mask = (1 << B) - 1; std::vector<PackedVector<B>> real(3); std::vector<Model> model(3); int writes = 0, copies = 0; if (s.verbose) s.say(fmt("%d bits", B));
	auto resize = [&](int k, size_t n) { Model& m = model[k]; size_t slots = (n + per - 1) / per * per; for (size_t i = n; i < m.v.size(); i++) m.v[i] = -1; m.v.resize(slots, 0); m.n = n; };
	auto inspect = [&](int k) { auto& r = real[k]; const auto& cr = r; Model& m = model[k]; c.equ(r.size(), m.v.size() / per, "bytes of storage"); for (size_t i = 0; i < m.n; i++) if (m.v[i] >= 0) { c.equ(cr.get(i), (u64)m.v[i], "element"); c.equ(cr.unsafeGet(i), (u64)m.v[i], "element, unchecked"); } else { int g = cr.get(i); c.check(g <= mask, "element %d of %d bits", g, B); m.v[i] = g; } };
	for (int step = 0, n = (int)s.range(1, 24); step < n; step++)
	{
		int k = (int)s.draw(2), o = (int)s.draw(2); Model& m = model[k];
		switch (s.draw(7))
		{
		case 0: { size_t z = s.chance(1, 5) ? s.draw(s.chance(1, 3) ? 600 : 200) : s.draw(20); if (s.verbose) s.say(fmt("%d.resize(%zu)", k, z)); real[k].resize(z); resize(k, z); break; }
		case 1: { size_t z = s.draw(s.chance(1, 6) ? 400 : 20); if (s.verbose) s.say(fmt("%d = PackedVector(%zu)", k, z)); real[k] = PackedVector<B>(z); m.v.clear(); resize(k, z); break; }
		case 2: { if (s.verbose) s.say(fmt("%d = %d", k, o)); real[k] = real[o]; model[k] = Model(model[o]); copies++; break; }
		case 3: { if (k == o) break; if (s.verbose) s.say(fmt("%d = move(%d)", k, o)); real[k] = std::move(real[o]); model[k] = model[o]; real[o] = PackedVector<B>(); model[o] = Model(); copies++; break; }
		case 4: { if (s.verbose) s.say(fmt("%d = copy of %d", k, o)); PackedVector<B> t(real[o]); if (model[o].n) { size_t i = s.draw(model[o].n - 1); t.unsafeSet(i, (uint8_t)s.draw(mask)); } inspect(o); PackedVector<B> u(std::move(t)); real[k] = real[o]; model[k] = Model(model[o]); (void)u; copies++; break; }
		default: if (m.n) { size_t i = s.draw(m.n - 1); uint8_t x = (uint8_t)(s.chance(1, 4) ? s.draw(255) : s.draw(mask)); bool checked = s.draw(1); if (s.verbose) s.say(fmt("%d[%zu] = %d", k, i, x)); if (checked) real[k].set(i, x); else real[k].unsafeSet(i, x); m.v[i] = x & mask; writes++; } break;
		}
		inspect(k); inspect(o);
	}
	for (int k = 0; k < 3; k++) inspect(k); c.trivialIf(writes < 2 || !copies); c.cls(copies ? "with copies" : "without copies");
}
LAW(history, 4, "at least two writes and one copy or move")
{
	size_t n = s.draw(40); PackedVector<> one(n); c.equ(one.size(), (n + 7) / 8, "bytes of storage of a vector of one bit, the default"); if (n) { one.set(n - 1, 3); c.equ(one.get(n - 1), 1, "element of a vector of one bit, the default"); }
	switch (s.draw(2)) { case 0: run<1>(s, c); break; case 1: run<2>(s, c); break; default: run<4>(s, c); }
}
// Many elements: a few writes anywhere, with every element near them and near the powers of two looked at; rarely more than 2^32 elements.
template<int B> static void many(Src& s, Case& c)
{
	const int mask = (1 << B) - 1; size_t n = B == 1 && s.chance(1, 100) ? ((size_t)1 << 32) + 1 + s.draw(4000) : (size_t)s.range(2, s.pick({ 300ull, 5000ull, 70000ull, 600000ull, 20000000ull })); if (s.chance(1, 4)) n = ((size_t)1 << s.range(4, 24)) + s.draw(4) - 2; s.say("bits", B); s.say("elements", (u64)n);
	size_t first = s.chance(1, 3) ? s.chance(1, 2) ? (size_t)1 << s.draw(22) : s.draw(2000000) : n; s.say("elements at first", (u64)first); PackedVector<B> v(first); if (first != n) { for (size_t i = 1; i < first; i = i * 3 + 1) v.set(i, 255); v.resize(n); for (size_t i = 1; i < first && i < n; i = i * 3 + 1) { c.equ(v.get(i), mask, "element after resizing"); v.set(i, 0); } if (n > first) for (size_t i = first; i < n && i < first + 20; i++) c.equ(v.get(i), 0, "new element"); } c.equ(v.size(), (n * B + 7) / 8, "bytes of storage"); std::map<size_t, int> model; std::vector<size_t> at; u64 wide = n > 0xffffffffull;
	auto place = [&]() -> size_t { size_t i; switch (s.draw(3)) { case 0: i = s.draw(n - 1); break; case 1: i = n - 1 - s.draw(std::min<size_t>(n - 1, 20)); break; case 2: i = ((size_t)1 << s.draw(wide ? 32 : 24)) + s.draw(4) - 2; break; default: i = at.empty() ? s.draw(n - 1) : at[s.draw(at.size() - 1)] + s.draw(2) - 1; } return i < n ? i : i % n; };
	auto look = [&](size_t i) { if (i < n) { auto f = model.find(i); c.equ(v.get(i), (u64)(f == model.end() ? 0 : f->second), "element"); } };
	for (u64 k = s.range(2, 24); k--;) { size_t i = place(); uint8_t x = (uint8_t)(s.chance(1, 4) ? s.draw(255) : s.draw(mask)); if (s.verbose) s.say(fmt("[%zu] = %d", i, x)); if (s.draw(1)) v.set(i, x); else v.unsafeSet(i, x); model[i] = x & mask; at.push_back(i); }
	for (size_t i : at) { for (int d = -9; d <= 9; d++) look(i + d); for (int b = 8; b <= 32; b++) { look(i ^ (size_t)1 << b); look(i & (((size_t)1 << b) - 1)); } } for (int b = 0; b <= 32; b++) look((size_t)1 << b);
	if (n <= 100000) for (size_t i = 0; i < n; i++) look(i);
	bool far = false; for (size_t i : at) far |= i > 65535; c.trivialIf(!far); c.cls(wide ? "more than 2^32 elements" : n > 65536 ? "more than 2^16 elements" : "fewer");
}
LAW(large, 0.1, "a write beyond element 65535")
{
	switch (s.draw(2)) { case 0: many<1>(s, c); break; case 1: many<2>(s, c); break; default: many<4>(s, c); }
}
// Counts that no memory can hold are refused, and the elements stay.
template<int B> static void refused(Src& s, Case& c)
{
	size_t few = s.draw(40), n = s.chance(1, 3) ? ~(size_t)0 - s.draw(20) : s.chance(1, 2) ? ((size_t)1 << s.range(60, 63)) + s.draw(40) - 20 : (size_t)s.range((u64)1 << 50, ~0ull); if (n < (size_t)1 << 50) n += (size_t)1 << 50; s.say("bits", B); s.say("elements", (u64)few); s.say("elements asked for", (u64)n); c.trivialIf(!few);
	PackedVector<B> v(few); for (size_t i = 0; i < few; i++) v.set(i, (uint8_t)(i * 7 + 1)); bool thrown = false; if (s.draw(1)) { try { v.resize(n); } catch (const std::exception&) { thrown = true; } c.check(thrown, "resize did not refuse"); c.equ(v.size(), (few + 8 / B - 1) / (8 / B), "bytes of storage"); for (size_t i = 0; i < few; i++) c.equ(v.get(i), (i * 7 + 1) & ((1 << B) - 1), "element"); }
	else { try { PackedVector<B> w(n); } catch (const std::exception&) { thrown = true; } c.check(thrown, "the constructor did not refuse"); }
}
LAW(too_many, 0.1, "there were elements")
{
	switch (s.draw(2)) { case 0: refused<1>(s, c); break; case 1: refused<2>(s, c); break; default: refused<4>(s, c); }
}
PBT_MAIN()
