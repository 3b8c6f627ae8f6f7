// B02: queries through a BVH against testing every primitive.
#include "bvhgen.hpp"
#include "math/matrix/projection.hpp"
using namespace pbt; using namespace math;
// The primitives of all leaves which pass, when every node above them passes as well.
static std::vector<uint32_t> expected(const std::vector<NodeInfo>& info, const std::vector<uint32_t>& prim, const std::vector<char>& pass, std::vector<uint32_t>* visits = nullptr)
{
	std::vector<uint32_t> r; std::vector<uint32_t> st = { 0 }; while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (visits) visits->push_back(i); if (!pass[i]) continue; if (info[i].leaf) r.insert(r.end(), prim.begin() + info[i].first, prim.begin() + info[i].first + info[i].count); else { st.push_back(info[i].left + 1); st.push_back(info[i].left); } } return r;
}
// How many right children wait at most while a traversal goes left first and every node passes.
static size_t pending(const std::vector<NodeInfo>& info)
{
	size_t most = 0; std::vector<uint32_t> st = { 0 }; while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (info[i].leaf) continue; st.push_back(info[i].left + 1); most = std::max(most, st.size()); st.push_back(info[i].left); } return most;
}
static Scene visible(Src& s) { Scene sc = scene(s, false); return sc; }
static void traverseAgain(Case& c, const Scene& sc, Bvh& b, const std::vector<NodeInfo>& info, const std::vector<char>& pass, const std::vector<uint32_t>& want, const std::vector<uint32_t>& visits)
{
	for (int round = 0; round < 2; round++)
	{
		std::vector<uint32_t> got, seen; const Bvh::Node* base = b.getNodes().data(); b.traverse([&](const Bvh::Node& n) { size_t i = &n - base; c.check(i < info.size(), "a node outside of the tree is visited"); seen.push_back((uint32_t)i); return (bool)pass[i]; }, [&](uint32_t first, uint32_t count) { c.check(count && first + count <= sc.n, "a leaf range is outside of the primitives"); got.insert(got.end(), b.getPrimitives().begin() + first, b.getPrimitives().begin() + first + count); });
		std::sort(got.begin(), got.end()); auto w = want; std::sort(w.begin(), w.end()); c.check(got == w, "traverse reached %zu primitives, a recursive walk %zu", got.size(), w.size()); std::sort(seen.begin(), seen.end()); auto v = visits; std::sort(v.begin(), v.end()); c.check(seen == v, "traverse tested %zu nodes, a recursive walk %zu", seen.size(), v.size()); c.check(b.getNodeStack().empty(), "the node stack is not empty after traverse");
	}
}
// traverse() with an arbitrary answer per node calls back exactly for what a plain recursive walk reaches.
LAW(traverse, 4, "some node passes and some node fails")
{
	Scene sc = visible(s); Bvh b = sc.make(lib(s, sc.root)); auto info = walk(c, sc, b); std::vector<char> pass(info.size()); int yes = 0; u64 failing = s.pick({ 5ull, 20ull, 200ull }); for (auto& p : pass) { p = !s.chance(1, failing); yes += p; } std::vector<uint32_t> visits; auto want = expected(info, b.getPrimitives(), pass, &visits); c.trivialIf(!yes || yes == (int)pass.size()); size_t wait = pending(info); if (wait > 32) c.cls("over 32 nodes wait on the stack"); else if (wait > 16) c.cls("17 to 32 nodes wait on the stack");
	traverseAgain(c, sc, b, info, pass, want, visits);
}
// Ray, point, sphere and box queries by traversal find what testing every primitive finds.
LAW(queries, 6, "some primitives are found and some are not")
{
	Scene sc = visible(s); Bvh b = sc.make(lib(s, sc.root)); walk(c, sc, b); D3 o; for (int a = 0; a < 3; a++) o[a] = (float)s.uni(sc.root.lo[a] - 2, sc.root.hi[a] + 2); if (s.draw(1)) { auto& t = sc.boxes[s.draw(sc.n - 1)]; for (int a = 0; a < 3; a++) o[a] = (float)s.uni(t.lo[a], t.hi[a]); } saw(s, "o", o); int kind = (int)s.draw(3); D3 d = dir(s, "direction"); double radius = s.uni(0, 30); float r = (float)radius; f32x4 fo = P(s, o);
	Box qb; for (int a = 0; a < 3; a++) { qb.lo[a] = (float)(o[a] - radius); qb.hi[a] = (float)(o[a] + s.uni(0, 20)); } Aabb query = lib(s, qb); Ray ray(fo, P(s, d)); Sphere sphere(r, fo);
	auto test = [&](const Aabb& a) { switch (kind) { case 0: return raycast(a, ray); case 1: return isInside(a, fo); case 2: return isIntersected(sphere, a); default: return isIntersected(a, query); } };
	// the margin is for rounding: what is clearly hit in double must be found
	auto clearly = [&](const Box& x, bool hit) { double e = 1e-4 * (1 + dlen(o) + std::max(dmaxabs(x.lo), dmaxabs(x.hi))) * (hit ? 1 : -1); if (kind == 0) { double t0 = 0, t1 = 1e300; for (int a = 0; a < 3; a++) { double lo = x.lo[a] + e, hi = x.hi[a] - e; if (hi < lo) return false; if (std::fabs(d[a]) < 1e-5) { if (o[a] < lo || o[a] > hi) return false; continue; } double u = (lo - o[a]) / d[a], v = (hi - o[a]) / d[a]; t0 = std::max(t0, std::min(u, v)); t1 = std::min(t1, std::max(u, v)); } return t0 <= t1; }
		if (kind == 1) { for (int a = 0; a < 3; a++) if (o[a] < x.lo[a] || o[a] > x.hi[a]) return false; return true; } if (kind == 2) { double q = 0; for (int a = 0; a < 3; a++) { double v = std::max(0.0, std::max(x.lo[a] - o[a], o[a] - x.hi[a])); q += v * v; } return std::sqrt(q) < r - e; } for (int a = 0; a < 3; a++) if (qb.hi[a] < x.lo[a] || qb.lo[a] > x.hi[a]) return false; return true; };
	std::set<uint32_t> found; size_t hits = 0; b.traverse([&](const Bvh::Node& n) { return test(n.aabb); }, [&](uint32_t first, uint32_t count) { for (uint32_t k = first; k < first + count; k++) { uint32_t p = b.getPrimitives()[k]; c.check(found.insert(p).second, "primitive %u is found twice", p); } });
	static const char* name[] = { "ray", "point", "sphere", "box" }; c.cls(name[kind]); for (uint32_t i = 0; i < sc.n; i++) { bool h = clearly(sc.boxes[i], true); hits += h; if (h) c.check(found.count(i), "the %s hits the box of primitive %u, which the traversal does not find", name[kind], i); if (!clearly(sc.root, false)) c.check(!found.count(i), "primitive %u is found although the %s misses the root", i, name[kind]); } c.trivialIf(!hits || hits == sc.n);
}
static std::vector<uint32_t> collectAgain(Case& c, const Scene& sc, Bvh& b, const std::vector<NodeInfo>& info, const Plane* pl, int count, const std::vector<char>& pass)
{
	auto want = expected(info, b.getPrimitives(), pass); std::sort(want.begin(), want.end()); std::vector<uint32_t> out(sc.n); 
	for (int round = 0; round < 2; round++)
	{
		std::stack<Bvh::Node*> own; uint32_t n = b.collectInFrustum(pl, (uint8_t)count, out.data(), round ? &own : nullptr); c.equ(n, want.size(), "number of primitives in the frustum"); std::vector<uint32_t> got(out.begin(), out.begin() + n); std::sort(got.begin(), got.end()); c.check(got == want, "another set of primitives is collected than the leaves which are not behind"); c.check(own.empty() && b.getNodeStack().empty(), "a node stack is not empty after collecting");
	}
	return want;
}
LAW(frustum, 8, "some primitives are collected and some are not")
{
	Scene sc = visible(s); Bvh b = sc.make(lib(s, sc.root)); auto info = walk(c, sc, b); Plane pl[256]; for (auto& q : pl) q = Plane(f32x4(0.0f, 1.0f, 0.0f), -1e30f, false); /* nothing may look at the planes after the last */ int count = 6; std::vector<std::pair<D3, double>> planes;
	if (s.draw(1))
	{ // a camera near the scene, looking at one of the primitives
		auto& t = sc.boxes[s.draw(sc.n - 1)]; D3 at = (t.lo + t.hi) * 0.5; D3 d = dir(s, "look"); D3 eye = fl(at - d * s.uni(1, 60)); c.assume(dmaxabs(eye) < 1e4); D3 up = std::fabs(d[1]) < 0.9 ? D3{ 0, 1, 0 } : D3{ 1, 0, 0 }; float4x4 p = s.draw(1) ? calcPerspProjRevZ(s.real(0.3, 1.8), s.real(0.5, 2.5), s.real(0.1, 1), s.real(20, 200)) : calcOrthoProjRevZ(float2(-10.0f, 10.0f), float2(-5.0f, 5.0f), float2(0.0f, s.real(5, 100))); extractFrustumPlanes(f32x4x4(p) * lookAt(simd(eye), simd(fl(at)), simd(up)), pl); normalizePlanes(pl, 6); c.cls("camera");
	}
	else
	{
		count = (int)s.range(1, s.chance(1, 4) ? 12 : 6); int copies = s.chance(1, 12) ? (int)s.range(0, 255 - count) : 0; for (int i = 0; i < count; i++) { D3 n = dir(s, "n"); auto& t = sc.boxes[s.draw(sc.n - 1)]; D3 p = s.draw(1) ? t.lo : t.hi; pl[i] = Plane(P(s, n), (float)(-ddot(n, p) + s.uni(-3, 3)), false); } for (int i = 0; i < copies; i++) pl[count + i] = pl[(i * 7 + 3) % count]; if (copies) for (int i = 0; i < count; i++) std::swap(pl[i], pl[count + copies - 1 - i]); count += copies; c.cls(copies ? "up to 255 planes" : "planes");
	}
	s.say("planes", count); for (int i = 0; i < count; i++) planes.push_back({ d3(pl[i].getNormal()), pl[i].getDistance() }); std::vector<char> pass(info.size()); 
	for (size_t k = 0; k < info.size(); k++)
	{
		bool behind = false, margin = false; const Box& x = info[k].box; for (auto& p : planes) { double hi = p.second, e = std::fabs(p.second); for (int a = 0; a < 3; a++) { hi += std::max(p.first[a] * x.lo[a], p.first[a] * x.hi[a]); e += std::max(std::fabs(p.first[a] * x.lo[a]), std::fabs(p.first[a] * x.hi[a])); } e *= 3e-6; if (hi < -e) behind = true; else if (hi < e) margin = true; } c.assume(behind || !margin); pass[k] = !behind;
	}
	auto want = collectAgain(c, sc, b, info, pl, count, pass);
	// nothing with a point on the inner side of every plane is lost
	for (uint32_t i = 0; i < sc.n; i++) { bool in = true; for (auto& p : planes) { double hi = p.second; for (int a = 0; a < 3; a++) hi += p.first[a] * (sc.boxes[i].lo[a] + sc.boxes[i].hi[a]) / 2; in &= hi > 1e-3 * (1 + std::fabs(p.second)); } if (in) c.check(std::binary_search(want.begin(), want.end(), i), "a primitive with its centre inside is lost"); } c.trivialIf(want.empty() || want.size() == sc.n);
}
// Big scenes: thousands of leaves, deep stacks, primitive numbers beyond 16 bits; an axis-aligned slab is exact to judge.
LAW(big, 0.004, "some node passes and some node fails")
{
	Scene sc = bigScene(s); Bvh b = sc.make(lib(s, sc.root)); auto info = walk(c, sc, b); u64 seed = s.draw(0xffffffffu); u64 part = s.pick({ 5ull, 20ull, 200ull, 5000ull }); std::vector<char> pass(info.size()); size_t yes = 0; for (size_t i = 0; i < pass.size(); i++) { u64 x = seed * 1000003 + i; pass[i] = i == 0 || splitmix(x) % part; yes += pass[i]; }
	std::vector<uint32_t> visits; auto want = expected(info, b.getPrimitives(), pass, &visits); c.trivialIf(yes == pass.size()); traverseAgain(c, sc, b, info, pass, want, visits);
	int axis = (int)s.draw(2); bool up = s.draw(1); auto& t = sc.boxes[s.draw(sc.n - 1)]; float at = (float)(up ? t.lo[axis] : t.hi[axis]); D3 n = { 0, 0, 0 }; n[axis] = up ? 1 : -1; Plane pl(P(s, n), up ? -at : at, false); s.say("axis", axis); s.say("at", at);
	for (size_t i = 0; i < pass.size(); i++) pass[i] = up ? info[i].box.hi[axis] >= at : info[i].box.lo[axis] <= at; collectAgain(c, sc, b, info, &pl, 1, pass);
}
LAW(empty, 0.2, "always")
{
	Bvh b; int calls = 0; b.traverse([&](const Bvh::Node&) { calls++; return true; }, [&](uint32_t, uint32_t) { calls++; }); Plane p(f32x4(0.0f, 1.0f, 0.0f), 0.0f); uint32_t out = 7; c.equ(b.collectInFrustum(&p, 1, &out), 0, "primitives of an empty BVH"); c.equ(calls, 0, "callbacks of an empty BVH"); c.equ(out, 7, "output of an empty BVH");
}
PBT_MAIN()
