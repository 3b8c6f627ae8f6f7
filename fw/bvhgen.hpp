// Scenes for the BVH harnesses: boxes or triangles, their layout in memory, and a structural model of the tree.
#pragma once
#include "geom.hpp"
#include "math/bvh.hpp"
namespace pbt
{
struct Scene
{
	bool tris = false, ownCentroids = false, rootSlack = false; uint32_t n = 0, vertexSize = 12, indexSize = 4;
	std::vector<Box> boxes; Box root; std::vector<math::f32x4> cent; // cent: given centroids
	std::vector<math::Aabb> aabbs; std::vector<uint8_t> verts, inds; std::vector<std::array<D3, 3>> tri;
	void build(math::Bvh& b, math::Aabb r) const
	{
		const math::f32x4* k = ownCentroids ? cent.data() : nullptr;
		if (tris) b.recreate(verts.data(), inds.data(), r, (uint32_t)(inds.size() / indexSize), vertexSize, indexSize, k); else b.recreate(aabbs.data(), r, n, k);
	}
	math::Bvh make(math::Aabb r) const
	{
		const math::f32x4* k = ownCentroids ? cent.data() : nullptr;
		if (tris) return math::Bvh(verts.data(), inds.data(), r, (uint32_t)(inds.size() / indexSize), vertexSize, indexSize, k); return math::Bvh(aabbs.data(), r, n, k);
	}
};
inline float axisValue(Src& s, int style)
{
	switch (style) { case 0: return (float)s.irange(-8, 8); case 1: return (float)s.uni(-50, 50); case 2: return (float)(s.irange(-1, 1) * 8 + s.uni(-0.5, 0.5)); case 3: return 1000.0f + (float)s.draw(3) * 6.1035156e-05f; // neighbouring floats
	case 4: return (float)s.draw(4) * (float)1e-42; case 5: return (float)s.uni(-1, 1) * s.pick({ 1e15f, 5e37f }); case 6: return (float)std::exp2(s.uni(-20, 10)); default: return 3.0f; }
}
inline Scene scene(Src& s, bool extreme = true, uint32_t count = 0)
{
	Scene r; r.tris = s.draw(1); r.n = count ? count : s.chance(1, 12) ? (uint32_t)s.range(60, 300) : s.chance(1, 3) ? (uint32_t)s.range(1, 4) : (uint32_t)s.range(1, 40); int style[3]; for (auto& v : style) { v = (int)s.pick({ 0, 1, 2, 0, 1, 6, 7, 3, 4, 5 }); if (!extreme && (v == 4 || v == 5)) v = 1; }
	// a chain: every primitive is a multiple of the one before, which gives trees as deep as they have primitives
	double ratio = !count && s.chance(1, 10) ? s.pick({ 2.0, 1.5, 3.0, 2.0 }) : 0, first = 1, sign[3] = { 1, 1, 1 };
	if (ratio) { double lg = std::log2(ratio); r.n = (uint32_t)s.range(20, (u64)(118 / lg)); first = std::exp2(s.uni(-60, 58 - (double)r.n * lg)); if (s.draw(1)) { first *= std::pow(ratio, (double)r.n - 1); ratio = 1 / ratio; } for (double& v : sign) v = s.draw(1) ? 1 : -1; for (auto& v : style) v = 0; } s.say("chain", (float)ratio);
	auto scale = [&](uint32_t i) { return ratio ? first * std::pow(ratio, (double)i) : 1.0; };
	double size = s.pick({ 0.0, 0.5, 3.0, 1.0, 20.0 }); s.say("primitives", r.n); s.say("triangles", r.tris); for (int v : style) s.say("axis style", v);
	if (r.tris)
	{
		r.vertexSize = s.pick({ 12u, 16u, 20u, 32u }); r.indexSize = s.pick({ 4u, 2u }); if (count > 20000) r.indexSize = 4; uint32_t nv = ratio || s.draw(1) ? r.n * 3 : (uint32_t)s.range(3, r.n + 4); r.verts.resize((size_t)nv * r.vertexSize); std::vector<D3> vs(nv);
		for (uint32_t i = 0; i < nv; i++)
		{
			D3 p; for (int a = 0; a < 3; a++) { if (nv == r.n * 3 && i % 3) p[a] = (float)(vs[i - i % 3][a] + (style[a] == 0 ? (double)s.irange(0, 2) : style[a] == 7 ? 0 : s.uni(-1, 1) * (style[a] == 3 ? 0 : style[a] == 4 ? 1e-42 : size))); else p[a] = axisValue(s, style[a]); } if (ratio) for (int a = 0; a < 3; a++) p[a] = (float)(sign[a] * scale(i / 3) * (a ? s.uni(0, 0.2) : s.uni(1, 1.1))); vs[i] = p;
			float f[3] = { (float)p[0], (float)p[1], (float)p[2] }; uint8_t* d = &r.verts[(size_t)i * r.vertexSize]; for (uint32_t k = 12; k < r.vertexSize; k++) d[k] = (uint8_t)(0x7f + k); memcpy(d, f, 12);
		}
		uint32_t extra = s.chance(1, 6) ? (uint32_t)s.draw(2) : 0; r.inds.resize((size_t)(r.n * 3 + extra) * r.indexSize);
		for (uint32_t i = 0; i < r.n * 3; i++) { uint32_t k = nv == r.n * 3 ? i : (uint32_t)s.draw(nv - 1); if (r.indexSize == 2) { uint16_t h = (uint16_t)k; memcpy(&r.inds[i * 2], &h, 2); } else memcpy(&r.inds[i * 4], &k, 4); if (i % 3 == 0) r.tri.push_back({}); r.tri[i / 3][i % 3] = vs[k]; }
		for (auto& t : r.tri) { Box b; for (int a = 0; a < 3; a++) { b.lo[a] = std::min(t[0][a], std::min(t[1][a], t[2][a])); b.hi[a] = std::max(t[0][a], std::max(t[1][a], t[2][a])); } r.boxes.push_back(b); }
	}
	else for (uint32_t i = 0; i < r.n; i++)
	{
		Box b; if (i && s.chance(1, 10)) b = r.boxes[s.draw(i - 1)]; else for (int a = 0; a < 3; a++) { b.lo[a] = axisValue(s, style[a]); b.hi[a] = (float)(b.lo[a] + (style[a] == 0 ? (double)s.draw(3) : style[a] == 7 || style[a] == 3 ? 0 : style[a] == 4 ? (double)s.draw(3) * 1e-42 : s.uni(0, 1) * size)); } if (ratio) for (int a = 0; a < 3; a++) { double u = scale(i) * sign[a] * (a ? s.uni(0, 0.1) : 1), v = u + scale(i) * sign[a] * s.uni(0, 0.1); b.lo[a] = (float)std::min(u, v); b.hi[a] = (float)std::max(u, v); } r.boxes.push_back(b); r.aabbs.push_back(lib(s, b));
	}
	r.ownCentroids = s.chance(1, 3); s.say("own centroids", r.ownCentroids); for (uint32_t i = 0; i < r.n && r.ownCentroids; i++) { D3 p; for (int a = 0; a < 3; a++) p[a] = s.chance(1, 4) ? style[a] == 5 && s.draw(1) ? (float)s.irange(-1, 1) * 3e38f : axisValue(s, style[a]) : (float)((r.boxes[i].lo[a] + r.boxes[i].hi[a]) / 2); r.cent.push_back(P(s, p)); }
	r.root = r.boxes[0]; for (auto& b : r.boxes) for (int a = 0; a < 3; a++) { r.root.lo[a] = std::min(r.root.lo[a], b.lo[a]); r.root.hi[a] = std::max(r.root.hi[a], b.hi[a]); }
	if (s.chance(1, 3)) { r.rootSlack = true; double k = s.pick({ 1.0, 10.0, 1000.0 }); for (int a = 0; a < 3; a++) { r.root.lo[a] = (float)(r.root.lo[a] - k); r.root.hi[a] = (float)(r.root.hi[a] + k); } } s.say("root slack", r.rootSlack);
	if (s.verbose) for (uint32_t i = 0; i < r.n && i < 12; i++) { saw(s, "min", r.boxes[i].lo); saw(s, "max", r.boxes[i].hi); }
	return r;
}
// Thousands of primitives: one choice seeds an unrecorded source.
inline Scene bigScene(Src& s)
{
	uint32_t n = (uint32_t)s.pick({ 700, 2000, 5000, 9000, 23000, 66000 }) + (uint32_t)s.draw(300); u64 seed = s.draw(0xffffffffu); u64 buf, cnt = 0; Src big(seed, &buf, (volatile u64*)&cnt); big.scratch = true; s.say("primitives", n); return scene(big, true, n);
}
struct NodeInfo { uint32_t first, count; Box box; bool leaf; uint32_t left; int depth; };
inline double halfArea(const Box& b) { D3 e = b.hi - b.lo; return e[0] * e[1] + e[0] * e[2] + e[1] * e[2]; }
// Walks the tree, checks its structure, and returns every node with the range of primitives below it.
inline std::vector<NodeInfo> walk(Case& c, const Scene& sc, const math::Bvh& bvh)
{
	const auto& nodes = bvh.getNodes(); const auto& prim = bvh.getPrimitives(); c.equ(prim.size(), sc.n, "number of primitives"); std::vector<char> seen(sc.n); for (uint32_t p : prim) { c.check(p < sc.n && !seen[p], "primitive %u is out of range or repeated", p); seen[p] = 1; }
	c.check(!nodes.empty() && nodes.size() <= 2u * sc.n - 1, "%zu nodes for %u primitives", nodes.size(), sc.n); std::vector<NodeInfo> info(nodes.size()); std::vector<char> visited(nodes.size()); uint32_t next = 0, reached = 0;
	std::function<void(uint32_t, int)> rec = [&](uint32_t i, int depth)
	{
		c.check(!visited[i], "node %u has two parents", i); visited[i] = 1; reached++; auto& n = nodes[i]; NodeInfo& f = info[i]; f.leaf = n.isLeaf(); f.depth = depth; f.first = next; f.left = 0;
		if (f.leaf) { f.count = n.getPrimitiveCount(); c.equ(n.getFirstPrimitive(), next, "first primitive of a leaf, in traversal order"); c.check(f.count <= sc.n - next, "a leaf reaches beyond the primitives"); next += f.count; }
		else { f.left = n.getLeftNode(); c.check(f.left > 0 && (size_t)f.left + 1 < nodes.size(), "node %u has the child %u of %zu nodes", i, f.left, nodes.size()); rec(f.left, depth + 1); rec(f.left + 1, depth + 1); f.count = next - f.first; }
		D3 lo = d3(n.aabb.getMin()), hi = d3(n.aabb.getMax()); f.box = { lo, hi };
		if (i == 0) { c.check(lo == sc.root.lo && hi == sc.root.hi, "the root box is not the given one"); return; }
		Box b = sc.boxes[prim[f.first]]; for (uint32_t k = f.first; k < f.first + f.count; k++) for (int a = 0; a < 3; a++) { b.lo[a] = std::min(b.lo[a], sc.boxes[prim[k]].lo[a]); b.hi[a] = std::max(b.hi[a], sc.boxes[prim[k]].hi[a]); }
		c.check(lo == b.lo && hi == b.hi, "the box of node %u is not the bounds of its %u primitives", i, f.count);
	};
	rec(0, 0); c.equ(next, sc.n, "primitives below the root"); c.equ(reached, nodes.size(), "nodes below the root"); return info;
}
} // namespace pbt
