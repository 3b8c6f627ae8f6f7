// B01: structure of the BVH. The model walks the tree and recomputes every box, range and split from the input.
#include "bvhgen.hpp"
using namespace pbt; using namespace math;
// The centroids the tree was built from (as stored in float).
static std::vector<D3> centroids(Case& c, const Scene& sc, const Bvh& b)
{
	std::vector<D3> r; const auto* k = sc.ownCentroids ? sc.cent.data() : b.getCentroids().data(); if (!sc.ownCentroids) c.equ(b.getCentroids().size(), sc.n, "number of centroids");
	for (uint32_t i = 0; i < sc.n; i++) { r.push_back(d3(k[i])); if (!sc.ownCentroids) { D3 want = sc.tris ? (sc.tri[i][0] + sc.tri[i][1] + sc.tri[i][2]) * (1.0 / 3) : (sc.boxes[i].lo + sc.boxes[i].hi) * 0.5; double m = std::max(dmaxabs(sc.boxes[i].lo), dmaxabs(sc.boxes[i].hi)); for (int a = 0; a < 3; a++) c.near(r[i][a], want[a], m * 1e-6 + 3e-45, "centroid of a primitive"); } }
	return r;
}
static Box bounds(const Scene& sc, const std::vector<uint32_t>& prim, uint32_t first, uint32_t count) { Box b = sc.boxes[prim[first]]; for (uint32_t k = first; k < first + count; k++) for (int a = 0; a < 3; a++) { b.lo[a] = std::min(b.lo[a], sc.boxes[prim[k]].lo[a]); b.hi[a] = std::max(b.hi[a], sc.boxes[prim[k]].hi[a]); } return b; }
static void inspect(Src& s, Case& c, const Scene& sc, const Bvh& b, bool& inner)
{
	auto info = walk(c, sc, b); auto cen = centroids(c, sc, b); const auto& prim = b.getPrimitives(); inner = info.size() > 1;
	for (auto& f : info) if (!f.leaf)
	{ // some axis separates the centroids of the two children
		bool sep = false; for (int a = 0; a < 3 && !sep; a++) { double l = -1e300, r = 1e300; for (uint32_t k = 0; k < info[f.left].count; k++) l = std::max(l, cen[prim[info[f.left].first + k]][a]); for (uint32_t k = 0; k < info[f.left + 1].count; k++) r = std::min(r, cen[prim[info[f.left + 1].first + k]][a]); sep = l < r; }
		c.check(sep, "no axis separates the children of a node of %u primitives", f.count);
	}
}
LAW(structure, 6, "the tree has at least one inner node")
{
	Scene sc = scene(s); Bvh b = sc.make(lib(s, sc.root)); bool inner; inspect(s, c, sc, b, inner); c.trivialIf(!inner); c.cls(sc.tris ? "triangles" : "boxes");
}
// A node holds its box and two numbers of 32 bits, whatever order they are set in.
LAW(node, 1, "two numbers beyond 16 bits")
{
	drawUnit(s); Box b = box(s, "box"); Bvh::Node n; uint32_t left = n.getLeftNode(), count = n.getPrimitiveCount(); c.equ(left, 0, "child of an empty node"); c.equ(count, 0, "primitives of an empty node"); n.aabb = math::Aabb(simd(b.lo), simd(b.hi)); bool wideL = false, wideC = false;
	for (int i = (int)s.range(1, 8); i--;)
	{
		uint32_t v = s.anyU32(); int k = (int)s.draw(3); s.say(k == 0 ? "count" : k == 1 ? "left" : k == 2 ? "first" : "box", v); if (k == 0) { n.setPrimitiveCount(count = v); wideC |= v > 65535; } else if (k == 1) { n.setLeftNode(left = v); wideL |= v > 65535; } else if (k == 2) { n.setFirstPrimitive(left = v); wideL |= v > 65535; } else { Bvh::Node o = n; n = o; }
		c.equ(n.getPrimitiveCount(), count, "primitive count"); c.equ(n.getLeftNode(), left, "left child"); c.equ(n.getFirstPrimitive(), left, "first primitive"); c.check(n.isLeaf() == (count != 0), "isLeaf is %d with %u primitives", count == 0, count); vecNear(c, d3(n.aabb.getMin()), b.lo, 0, "box of the node"); vecNear(c, d3(n.aabb.getMax()), b.hi, 0, "box of the node");
	}
	c.trivialIf(!wideL || !wideC);
}
// Big meshes: offsets and counts beyond 16 bits, deep trees.
LAW(big, 0.004, "always")
{
	Scene sc = bigScene(s); Bvh b = sc.make(lib(s, sc.root)); bool inner; inspect(s, c, sc, b, inner); c.trivialIf(!inner); c.cls(sc.tris ? "triangles" : "boxes");
}
// Rebuilding an object in any history gives what a fresh one holds.
LAW(rebuild, 3, "at least two builds, the last tree has an inner node")
{
	Bvh b; c.check(b.getNodes().empty() && b.getPrimitives().empty() && b.getCentroids().empty(), "the default BVH is not empty"); int steps = (int)s.range(1, 4); bool inner = false;
	for (int i = 0; i < steps; i++)
	{
		Scene sc = scene(s); Aabb root = lib(s, sc.root); sc.build(b, root); inspect(s, c, sc, b, inner); Bvh f = sc.make(root); c.check(f.getPrimitives() == b.getPrimitives(), "the order of primitives differs from a fresh BVH"); c.equ(b.getNodes().size(), f.getNodes().size(), "number of nodes, compared to a fresh BVH");
		for (size_t k = 0; k < f.getNodes().size(); k++) { auto &x = f.getNodes()[k], &y = b.getNodes()[k]; c.check(x.isLeaf() == y.isLeaf() && x.getLeftNode() == y.getLeftNode() && d3(x.aabb.getMin()) == d3(y.aabb.getMin()) && d3(x.aabb.getMax()) == d3(y.aabb.getMax()), "node %zu differs from a fresh BVH", k); }
		c.check(b.getNodeStack().empty(), "the node stack is not empty after building");
		if (s.chance(1, 3)) { Bvh copy = b; Bvh moved = std::move(copy); b = moved; bool in2; inspect(s, c, sc, b, in2); }
	}
	c.trivialIf(steps < 2 || !inner);
}
// The surface area heuristic: a node is split where that is cheaper than a leaf, at the cheapest of the candidate planes.
LAW(sah, 6, "some node with an unambiguous choice was judged")
{
	Scene sc = scene(s, false); Bvh b = sc.make(lib(s, sc.root)); auto info = walk(c, sc, b); auto cen = centroids(c, sc, b); const auto& prim = b.getPrimitives(); int judged = 0;
	for (auto& f : info)
	{
		if (f.leaf && f.count <= 2 && &f != &info[0]) continue; double best = 1e300, nodeCost = halfArea(f.box) * f.count; bool clear = true;
		for (int a = 0; a < 3 && clear; a++)
		{
			double lo = 1e300, hi = -1e300; for (uint32_t k = f.first; k < f.first + f.count; k++) { lo = std::min(lo, cen[prim[k]][a]); hi = std::max(hi, cen[prim[k]][a]); } if (lo == hi) continue; if (hi - lo < 1e-30 || hi - lo < 1e-4 * std::max(std::fabs(lo), std::fabs(hi))) { clear = false; break; }
			Box bin[8]; int cnt[8] = {}; for (uint32_t k = f.first; k < f.first + f.count; k++)
			{
				double v = (cen[prim[k]][a] - lo) * 8 / (hi - lo), d = std::fabs(v - std::round(v)); int i = std::min(7, (int)v); bool end = cen[prim[k]][a] == lo || cen[prim[k]][a] == hi; if (d < 1e-5 + 4e-6 * std::max(std::fabs(lo), std::fabs(hi)) / (hi - lo) && !end && !(v == std::round(v) && std::floor(lo) == lo && std::floor(hi) == hi && (hi - lo) == 8)) { clear = false; break; }
				auto& q = sc.boxes[prim[k]]; if (!cnt[i]++) bin[i] = q; else for (int x = 0; x < 3; x++) { bin[i].lo[x] = std::min(bin[i].lo[x], q.lo[x]); bin[i].hi[x] = std::max(bin[i].hi[x], q.hi[x]); }
			}
			if (!clear) break;
			for (int p = 1; p < 8; p++) { double cost = 0; for (int side = 0; side < 2; side++) { Box u; int m = 0; for (int i = side ? p : 0; i < (side ? 8 : p); i++) if (cnt[i]) { if (!m) u = bin[i]; else for (int x = 0; x < 3; x++) { u.lo[x] = std::min(u.lo[x], bin[i].lo[x]); u.hi[x] = std::max(u.hi[x], bin[i].hi[x]); } m += cnt[i]; } if (m) cost += m * halfArea(u); } best = std::min(best, cost); }
		}
		if (!clear) continue; judged++; double e = 1e-4 * (nodeCost + (best < 1e300 ? best : 0)) + 1e-30;
		if (f.leaf) c.check(best >= nodeCost - e, "a node of %u primitives was left unsplit at cost %.9g, a split costs %.9g", f.count, nodeCost, best);
		else
		{
			double cost = info[f.left].count * halfArea(info[f.left].box) + info[f.left + 1].count * halfArea(info[f.left + 1].box); c.check(cost <= best + e, "a node of %u primitives was split at cost %.9g, the best plane costs %.9g", f.count, cost, best); c.check(cost <= nodeCost + e, "a node of %u primitives and cost %.9g was split at cost %.9g", f.count, nodeCost, cost);
		}
	}
	c.trivialIf(!judged); c.cls(judged > 3 ? "more than three nodes judged" : judged ? "few nodes judged" : "none judged");
}
PBT_MAIN()
