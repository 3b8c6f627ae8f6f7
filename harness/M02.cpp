// M02: inverses against Gauss-Jordan elimination in double, with bounds proportional to the condition number.
#include "math.hpp"
#include "math/matrix.hpp"
using namespace pbt; using namespace math;
static double norm(const DM& a, int n) { double r = 0; for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += std::fabs(a.m[i][j]); r = std::max(r, t); } return r; }
static const double COND[5] = { 0, 0, 60, 60, 60 };
// Well-conditioned by construction: distinct integers, random reals, rotation*scale, shear; the condition number is bounded by rejection.
static bool matrix(Src& s, int n, DM& a, DM& inv, double& cond)
{
	a = dident(); int kind = (int)s.draw(3);
	if (kind == 3 && n == 4) { DM r = dquat(rotq(s, "q")); for (int i = 0; i < 3; i++) { double k = s.uni(0.2, 4); for (int j = 0; j < 3; j++) a.m[i][j] = r.m[i][j] * k; } for (int j = 0; j < 3; j++) a.m[3][j] = s.uni(-6, 6); }
	else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.m[i][j] = kind == 0 ? (double)s.irange(-5, 5) : kind == 1 ? s.uni(-2, 2) : (i == j ? 2.0 : 0.0) + (s.chance(1, 3) ? (double)s.irange(-2, 2) : 0.0);
	// columns of unit length that are not at right angles, or at right angles but of other lengths, and every shape with a simpler inverse
	if (kind == 2 && s.chance(1, 4)) for (int i = 0; i < n; i++) { double l = 0; int e = std::min(n, 3); for (int j = 0; j < e; j++) l += a.m[i][j] * a.m[i][j]; if (i < 3 && l > 0) for (int j = 0; j < n; j++) a.m[i][j] /= std::sqrt(l); }
	bool sh = s.chance(1, 3); if (sh) shaped(s, a, n);
	double k = sh && s.draw(1) ? 1 : std::exp2((double)s.irange(-4, 4)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.m[i][j] = (float)(a.m[i][j] * k);
	if (sh && k != 1 && s.draw(1)) for (int i = 0; i < n; i++) a.m[i][n - 1] = i == n - 1; // scaled but affine
	if (s.verbose) { std::string t = "m=columns"; for (int i = 0; i < n; i++) { t += "("; for (int j = 0; j < n; j++) t += fmt(j ? ",%.9g" : "%.9g", a.m[i][j]); t += ")"; } s.say(t); }
	if (!dinv(a, n, inv)) return false; DM b = a, d = inv; cond = norm(b, n) * norm(d, n); return cond < COND[n];
}
template<class M> static DM get(const M& m, int n) { DM r = dident(); float f[16]; memcpy(f, &m, sizeof(float) * n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.m[i][j] = f[i * n + j]; return r; }
template<class M> static M make(const DM& a, int n) { float f[16]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f[i * n + j] = (float)a.m[i][j]; M m; memcpy((void*)&m, f, sizeof(float) * n * n); return m; }
template<class M, class I> static void law(Src& s, Case& c, int n, I inverseOf, const char* what)
{
	DM a, inv; double cond; c.assume(matrix(s, n, a, inv, cond)); bool asym = true, affine = true; for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) asym &= a.m[i][j] != a.m[j][i]; if (i < n - 1) affine &= a.m[i][n - 1] == 0; } c.trivialIf(!asym); c.cls(affine ? "affine" : "general");
	M m = make<M>(a, n), r = inverseOf(m); DM g = get(r, n); double lim = norm(inv, n) * cond * cond * 4e-7;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!(std::fabs(g.m[i][j] - inv.m[i][j]) <= lim)) c.near(g.m[i][j], inv.m[i][j], lim, fmt("%s, column %d row %d", what, i, j).c_str());
	DM p = dmul(a, g), q = dmul(g, a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { c.near(p.m[i][j], i == j, cond * cond * cond * 4e-7, "m * inverse"); c.near(q.m[i][j], i == j, cond * cond * cond * 4e-7, "inverse * m"); }
	DM back = get(inverseOf(r), n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.near(back.m[i][j], a.m[i][j], norm(a, n) * cond * cond * 1e-6, "inverse twice");
}
LAW(inverse2x2, 2, "the matrix is asymmetric") { law<float2x2>(s, c, 2, [](const float2x2& m) { return inverse(m); }, "inverse(float2x2)"); }
LAW(inverse3x3, 3, "the matrix is asymmetric") { law<float3x3>(s, c, 3, [](const float3x3& m) { return inverse(m); }, "inverse(float3x3)"); }
LAW(inverse4x4, 3, "the matrix is asymmetric") { law<float4x4>(s, c, 4, [](const float4x4& m) { return inverse(m); }, "inverse(float4x4)"); }
LAW(inverse_simd, 4, "the matrix is asymmetric") { law<f32x4x4>(s, c, 4, [](const f32x4x4& m) { return inverse4x4(m); }, "inverse4x4"); }
PBT_MAIN()
