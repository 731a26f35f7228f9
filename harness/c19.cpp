// C19: singular value decomposition, least squares, colour correction matrices and gamuts made from a chart
#include "common.hpp"
using namespace H;
namespace S = CS::SOLVER;
namespace
{
typedef std::vector<std::vector<double>> M2;
// one-sided Jacobi in double: A = U diag(s) V^T, columns of A rotated in place
void jacobi(M2 U, M2 &V, std::vector<double> &s, M2 &Uo)
{
    int m = (int)U.size(), n = (int)U[0].size();
    V.assign(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; i++) V[i][i] = 1;
    for (int sweep = 0; sweep < 60; sweep++)
    {
        bool rot = false;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
        {
            double a = 0, b = 0, g = 0;
            for (int i = 0; i < m; i++) { a += U[i][p] * U[i][p]; b += U[i][q] * U[i][q]; g += U[i][p] * U[i][q]; }
            if (g == 0 || std::fabs(g) <= 1e-15 * std::sqrt(a * b)) continue;
            rot = true;
            double z = (b - a) / (2 * g), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
            for (int i = 0; i < m; i++) { double x = U[i][p], y = U[i][q]; U[i][p] = c * x - sn * y; U[i][q] = sn * x + c * y; }
            for (int i = 0; i < n; i++) { double x = V[i][p], y = V[i][q]; V[i][p] = c * x - sn * y; V[i][q] = sn * x + c * y; }
        }
        if (!rot) break;
    }
    s.assign(n, 0);
    for (int j = 0; j < n; j++)
    {
        double q = 0;
        for (int i = 0; i < m; i++) q += U[i][j] * U[i][j];
        s[j] = std::sqrt(q);
        for (int i = 0; i < m; i++) U[i][j] = s[j] > 0 ? U[i][j] / s[j] : 0;
    }
    Uo = U;
}
double gauss(Rng &r) { return std::sqrt(-2 * std::log(1 - r.d())) * std::cos(6.283185307179586 * r.d()); }
struct Gen { M2 a; int m, n; int kind; };
const char *KIND[] = {"random", "rank deficient", "orthogonal columns", "zero column", "diagonal", "graded columns", "repeated column", "zero matrix", "integers", "one column dominates", "block of zeros"};
Gen make(Rng &r, int maxn, int maxm)
{
    Gen g;
    g.n = 1 + r.below(maxn);
    g.m = g.n + (r.below(3) ? r.below(maxm - g.n + 1) : 0);
    g.kind = r.below(11);
    int m = g.m, n = g.n;
    g.a.assign(m, std::vector<double>(n, 0));
    auto fill = [&](double s) { for (auto &row : g.a) for (auto &x : row) x = s * gauss(r); };
    switch (g.kind)
    {
    case 0: fill(1); break;
    case 1: {
        int k = n > 1 ? r.below(n) : 0;
        for (int t = 0; t < k; t++) { std::vector<int> u(m), v(n); for (auto &x : u) x = (int)r.below(9) - 4; for (auto &x : v) x = (int)r.below(9) - 4; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) g.a[i][j] += u[i] * v[j]; }
        break;
    }
    case 2: { // Householder reflection's leading columns
        std::vector<double> v(m);
        double q = 0;
        for (auto &x : v) { x = gauss(r); q += x * x; }
        double sc = r.pick<double>({1, 2, 0.25});
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) g.a[i][j] = sc * ((i == j) - 2 * v[i] * v[j] / q);
        break;
    }
    case 3: { fill(1); int j = r.below(n); for (auto &row : g.a) row[j] = 0; break; }
    case 4: for (int j = 0; j < n; j++) g.a[j][j] = r.below(4) ? r.d(-5, 5) : r.pick<double>({0, 1, 1, -1}); break;
    case 5: { for (int j = 0; j < n; j++) { double s = r.logf_(0.01, 100); for (int i = 0; i < m; i++) g.a[i][j] = s * gauss(r); } break; }
    case 6: { fill(1); if (n > 1) { int p = r.below(n), q = r.below(n); for (auto &row : g.a) row[p] = row[q]; } break; }
    case 7: break;
    case 8: for (auto &row : g.a) for (auto &x : row) x = (int)r.below(3) - 1; break;
    case 9: { fill(1); int j = r.below(n); for (auto &row : g.a) row[j] *= 300; break; }
    case 10: { fill(1); int p = 1 + r.below(n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if ((i < p) != (j < p)) g.a[i][j] = 0; break; }
    }
    double sc = r.below(3) ? 1 : r.below(3) ? r.logf_(1e-6, 1e6) : r.logf_(1e-15, 1e15);
    for (auto &row : g.a) for (auto &x : row) x = (double)(float)(x * sc);
    return g;
}
S::Matrix toM(const M2 &a) { int m = (int)a.size(), n = m ? (int)a[0].size() : 0; S::Matrix r(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[i][j] = (float)a[i][j]; return r; }
} // namespace
void run()
{
    Rng r = rng("c19");
    Mon &mrec = mon("A = U W V^T"), &mu = mon("U has orthonormal columns"), &mv = mon("V is orthogonal"), &mw = mon("singular values"), &mr = mon("return values"), &mls = mon("least squares: normal equations"),
        &mx = mon("least squares: the solution"), &mmin = mon("rank deficient: minimum norm solution"), &mtol = mon("TOL cuts singular values"), &mc = mon("Corrector finds the best 3x3 matrix"), &mce = mon("Corrector recovers an exact matrix"),
        &mcd = mon("Corrector against the Macbeth chart"), &mg = mon("makeGamut maps the patches onto the chart"), &marg = mon("arguments are kept"), &mcon = mon("containers");
    Cls cfull("full rank", 200), cdef("rank deficient", 200), cwide("m < n", 50), csq("square", 100), ctall("tall", 200), cill("condition above 100", 50), ctol("TOL between singular values", 50), cnear("TOL within a factor 2 of a singular value", 50), cnoise("noisy targets", 200), cex("exact targets", 200), cchart("chart", 20), cshort("chart with fewer patches", 5), cfew("two patches", 20), cbig("more than 10 columns or 80 rows", 20), cstruct("structured patches", 50), cflat("nearly grey patches", 50), ccon("containers", 20);
    for (const char *k : KIND) need(k, 20);
    long n = N(40000);
    double worst[4] = {0, 0, 0, 0};
    for (long it = 0; it < n; it++)
    {
        int big = it % 256 == 0 ? (it % 512 ? 1 : 2) : 0;
        if (big) cbig();
        Gen g = big == 1 ? make(r, 40, 60) : big == 2 ? make(r, 6, 1000) : make(r, 10, r.below(8) ? 24 : 80);
        cls(KIND[g.kind]);
        (g.m == g.n ? csq : ctall)();
        cur("svdcmp", {(double)g.m, (double)g.n, (double)g.kind, g.a[0][0], g.a[g.m - 1][g.n - 1], (double)it, (double)opt.shard});
        if (it % 16 == 0)
        {
            S::Matrix E, Z(g.m, g.n);
            S::Vector e, z(g.m);
            bool ok = E.rows() == 0 && E.cols() == 0 && Z.rows() == g.m && Z.cols() == g.n;
            for (int i = 0; i < g.m && ok; i++) { ok = z[i] == 0.f; for (int j = 0; j < g.n; j++) ok = ok && Z[i][j] == 0.f; }
            for (int i = 0; i < g.m; i++) { z[i] = (float)(i + 1); for (int j = 0; j < g.n; j++) { if ((i + j) & 1) Z[i][j] = g.a[i][j]; else Z.v(i, j) = g.a[i][j]; } }
            const float *p = z.data();
            S::Matrix Y(Z);
            Z[0][0] = Z[0][0] + 1;
            for (int i = 0; i < g.m && ok; i++) { ok = p[i] == (float)(i + 1); for (int j = 0; j < g.n; j++) ok = ok && Y.v(i, j) == (float)g.a[i][j] && (i + j == 0 || Z[i][j] == (float)g.a[i][j]); }
            e = z;
            z[0] = -1;
            check(mcon, ok && e[0] == 1.f && e.data()[0] == 1.f, "matrix and vector containers do not hold what was put in");
            ccon();
        }
        M2 V, U;
        std::vector<double> s;
        jacobi(g.a, V, s, U);
        double smax = *std::max_element(s.begin(), s.end()), smin = *std::min_element(s.begin(), s.end());
        // library
        S::Matrix A = toM(g.a), VV(g.n, g.n);
        S::Vector W(g.n);
        int rc = S::svdcmp(A, W, VV);
        if (!check(mr, rc >= 0, "svdcmp failed")) continue;
        double dim = std::sqrt((double)g.m * g.n), tol = 4e-6 * (4 + dim);
        std::vector<double> w(g.n);
        bool ok = true;
        for (int j = 0; j < g.n; j++) { w[j] = W[j]; ok = ok && std::isfinite(w[j]) && w[j] >= 0; }
        if (!check(mw, ok, "a singular value is negative or not finite")) continue;
        std::vector<double> ws = w, ss = s;
        std::sort(ws.begin(), ws.end());
        std::sort(ss.begin(), ss.end());
        for (int j = 0; j < g.n; j++) near(mw, ws[j], D(ss[j], 0), "singular value", 0, tol * smax + 1e-30);
        double e = 0, eu = 0, ev = 0;
        for (int i = 0; i < g.m; i++) for (int j = 0; j < g.n; j++)
        {
            double q = 0;
            for (int k = 0; k < g.n; k++) q += (double)A[i][k] * w[k] * VV[j][k];
            e = std::max(e, std::fabs(q - g.a[i][j]));
            if (std::isnan(q)) e = INFINITY;
        }
        for (int p = 0; p < g.n; p++) for (int q = 0; q < g.n; q++)
        {
            double a = 0, b = 0;
            for (int i = 0; i < g.n; i++) a += (double)VV[i][p] * VV[i][q];
            for (int i = 0; i < g.m; i++) b += (double)A[i][p] * A[i][q];
            double d = p == q ? 1 : 0;
            ev = std::isnan(a) ? INFINITY : std::max(ev, std::fabs(a - d));
            if (w[p] > 1e-4 * smax && w[q] > 1e-4 * smax) eu = std::isnan(b) ? INFINITY : std::max(eu, std::fabs(b - d));
        }
        worst[0] = std::max(worst[0], smax > 0 ? e / smax / tol : 0); worst[1] = std::max(worst[1], eu / tol); worst[2] = std::max(worst[2], ev / tol);
        near(mrec, e, D(0, 0), "largest entry of A - U W V^T", 0, tol * smax + 1e-30);
        near(mu, eu, D(0, 0), "largest entry of U^T U - I", 0, 16 * tol);
        near(mv, ev, D(0, 0), "largest entry of V^T V - I", 0, 2 * tol);

        // least squares
        std::vector<double> b(g.m);
        int bk = r.below(3);
        std::vector<double> x0(g.n);
        for (auto &x : x0) x = gauss(r);
        for (int i = 0; i < g.m; i++)
        {
            b[i] = bk == 0 ? gauss(r) * std::max(smax, 1e-20) : 0;
            if (bk) for (int j = 0; j < g.n; j++) b[i] += g.a[i][j] * x0[j];
            if (bk == 2) b[i] += 0.01 * smax * gauss(r);
            b[i] = (double)(float)b[i];
        }
        S::Matrix A2 = toM(g.a);
        S::Vector B(g.m), X(g.n);
        for (int i = 0; i < g.m; i++) B[i] = (float)b[i];
        for (int j = 0; j < g.n; j++) X[j] = 12345.f; // must be overwritten
        float TOL = 1e-5f;
        bool explicitTol = r.below(4) == 0;
        if (explicitTol) { TOL = r.pick<float>({1e-3f, 1e-2f, 0.1f, 0.3f, 1e-4f, 0.f, 1e-6f}); if (smax > 0 && r.below(2)) { double q = s[r.below(g.n)] / smax * r.pick<float>({0.5f, 0.8f, 0.9f, 0.97f, 1.03f, 1.1f, 1.25f, 2.f}); if (q > 1e-3 && q < 0.95) { TOL = (float)q; cnear(); } } }
        // a clear gap around the cut, else the float decomposition may fall on either side
        bool gap = true, cut = false, deficient = false;
        int kept = 0;
        double sc = 0; // the largest one cut
        for (double q : s) { if (explicitTol ? std::fabs(q - TOL * smax) < std::max(0.01 * TOL, 2 * tol) * smax : q > TOL * smax / 3 && q < TOL * smax * 3) gap = false; if (q < TOL * smax) sc = std::max(sc, q); if (smax > 0 && q >= TOL * smax) kept++; else { cut = true; if (q > 1e-7 * smax) deficient = true; } }
        if (!explicitTol) for (double q : s) if (q < 30 * tol * smax && q > 1e-7 * smax) gap = false;
        if (!gap) continue;
        if (smax == 0) { TOL = 1e-5f; explicitTol = false; }
        cur("solve", {(double)g.m, (double)g.n, (double)g.kind, TOL, b[0], g.a[0][0], g.a[g.m - 1][g.n - 1], (double)it, (double)opt.shard});
        rc = explicitTol ? S::solve(A2, B, X, TOL) : S::solve(A2, B, X);
        if (!check(mr, rc == 0, "solve failed")) continue;
        bool kept_args = true;
        for (int i = 0; i < g.m; i++) { kept_args = kept_args && B[i] == (float)b[i]; for (int j = 0; j < g.n; j++) kept_args = kept_args && A2[i][j] == (float)g.a[i][j]; }
        check(marg, kept_args, "A or b was changed");
        // reference: truncated pseudo-inverse
        std::vector<double> x(g.n, 0), res(b);
        double nb = 0, nx = 0, nr = 0, sk = INFINITY;
        for (int j = 0; j < g.n; j++) if (smax > 0 && s[j] >= TOL * smax)
        {
            sk = std::min(sk, s[j]);
            double c = 0;
            for (int i = 0; i < g.m; i++) c += U[i][j] * b[i];
            for (int i = 0; i < g.n; i++) x[i] += V[i][j] * c / s[j];
        }
        for (int i = 0; i < g.m; i++) { for (int j = 0; j < g.n; j++) res[i] -= g.a[i][j] * x[j]; nb += b[i] * b[i]; nr += res[i] * res[i]; }
        for (double q : x) nx += q * q;
        nb = std::sqrt(nb); nx = std::sqrt(nx); nr = std::sqrt(nr);
        double cond = smax > 0 ? smax / sk : 1;
        if (cond > 100) cill();
        // with small kept singular values next to cut ones, the subspaces themselves rotate by tol / gap
        double gapd = cut && deficient ? std::max(1e-9, (sk - sc) / smax) : 1;
        double tx = smax > 0 ? 4 * tol * (cond * nx + cond * cond * nr / smax + nb / smax * cond) / gapd : 1e-6;
        double worstd = 0;
        for (int j = 0; j < g.n; j++) worstd = std::isfinite(X[j]) ? std::max(worstd, std::fabs(X[j] - x[j])) : INFINITY;
        (cut ? cdef : cfull)();
        if (deficient) ctol();
        near(deficient ? mtol : (cut ? mmin : mx), worstd, D(0, 0), "distance from the least squares solution", 0, tx + 1e-30);
        if (!deficient && smax > 0) // backward stable: the normal equations hold to working precision
        {
            double ne = 0;
            for (int j = 0; j < g.n; j++)
            {
                double q = 0;
                for (int i = 0; i < g.m; i++) { double f = -b[i]; for (int k = 0; k < g.n; k++) f += g.a[i][k] * (double)X[k]; q += g.a[i][j] * f; }
                ne = std::max(ne, std::fabs(q));
            }
            near(mls, ne, D(0, 0), "A^T (A x - b)", 0, 8 * tol * smax * (smax * nx + nb) * (cut ? cond : 1));
        }
    }
    note(fmt("largest fraction of the tolerance: reconstruction %.3f, U %.3f, V %.3f", worst[0], worst[1], worst[2]));
    // under-determined
    n = N(200);
    for (long it = 0; it < n; it++)
    {
        int nn = 2 + r.below(9), m = r.below(nn);
        cur("m<n", {(double)m, (double)nn});
        cwide();
        if (m == 0) m = 1;
        S::Matrix A(m, nn), V(nn, nn);
        S::Vector W(nn), b(m), x(nn);
        for (int i = 0; i < m; i++) for (int j = 0; j < nn; j++) A[i][j] = (float)gauss(r);
        check(mr, S::solve(A, b, x) < 0, "solve of an under-determined system must report failure");
        check(mr, S::svdcmp(A, W, V) < 0, "svdcmp of an under-determined system must report failure");
    }
    // colour correction: minimise sum |M p - t|^2
    n = N(12000);
    for (long it = 0; it < n; it++)
    {
        int k;
        switch (r.below(4)) { case 0: k = 3; break; case 1: k = 24; break; case 2: k = r.below(40) ? r.below(6) ? 4 + r.below(60) : r.pick<int>({18, 24, 30, 96, 99, 100, 140}) : 300 + r.below(700); break; default: k = 3 + r.below(8); }
        std::vector<Tristimulus> p(k), t(k);
        double M[9];
        for (auto &x : M) x = gauss(r) * 0.5;
        M[0] += 1; M[4] += 1; M[8] += 1;
        bool noise = r.below(2), structured = r.below(4) == 0;
        if (structured) cstruct();
        if (r.below(8) == 0) for (int i = 0; i < 9; i++) M[i] = i % 4 == 0; // the identity, a swap, a rank-one map
        else if (r.below(8) == 0) { for (auto &x : M) x = 0; M[1] = M[3] = M[8] = 1; }
        else if (r.below(8) == 0) for (int i = 3; i < 9; i++) M[i] = M[i % 3];
        double sc = r.below(4) ? 1 : r.logf_(1e-3, 1e3), flat = r.below(k > 100 ? 3 : 6) ? 0 : r.logf_(0.0007, 0.1);
        for (int i = 0; i < k; i++)
        {
            Tristimulus q(r.f(0, 1) * (float)sc, r.f(0, 1) * (float)sc, r.f(0, 1) * (float)sc);
            if (flat > 0) { const float z = r.f(0.2, 1); q = Tristimulus((float)(sc * (z + flat * gauss(r))), (float)(sc * (z + flat * gauss(r))), (float)(sc * (z + flat * gauss(r)))); } // nearly grey patches
            if (structured && r.below(2)) // greys, blacks, primaries, repeated and negative patches
            {
                float z = r.f(0, 1) * (float)sc;
                switch (r.below(6))
                {
                case 0: q = Tristimulus(z, z, z); break;
                case 1: q = Tristimulus(0.f, 0.f, 0.f); break;
                case 2: q = Tristimulus(z, 0.f, 0.f); break;
                case 3: q = Tristimulus(0.f, z, 0.f); break;
                case 4: if (i) q = p[i - 1]; break;
                case 5: q = Tristimulus(-z, q[1], q[2]); break;
                }
            }
            float u[3];
            for (int c = 0; c < 3; c++) u[c] = (float)(M[c * 3] * q[0] + M[c * 3 + 1] * q[1] + M[c * 3 + 2] * q[2] + (noise ? 0.05 * sc * gauss(r) : 0));
            p[i] = q;
            t[i] = Tristimulus(u[0], u[1], u[2]);
        }
        (noise ? cnoise : cex)();
        if (flat > 0) cflat();
        M2 P(k, std::vector<double>(3)), V, U;
        for (int i = 0; i < k; i++) for (int c = 0; c < 3; c++) P[i][c] = p[i][c];
        std::vector<double> s;
        jacobi(P, V, s, U);
        double smax = *std::max_element(s.begin(), s.end()), smin = *std::min_element(s.begin(), s.end()), cond = smax / smin;
        if (!(cond <= 3000)) { skipped_++; continue; }
        cur("Corrector::solve", {(double)k, (double)noise, p[0][0], p[0][1], t[0][0], t[k - 1][2], (double)it, (double)opt.shard});
        const std::vector<Tristimulus> pc = p, tc = t;
        const Matrix3 R = CS::Corrector::solve(p, t);
        for (int i = 0; i < k; i++) for (int c = 0; c < 3; c++) { same(marg, p[i][c], pc[i][c], "patch"); same(marg, t[i][c], tc[i][c], "target"); }
        for (int c = 0; c < 3; c++)
        {
            double x[3] = {0, 0, 0}, nr = 0, nx = 0, nb = 0;
            for (int j = 0; j < 3; j++) { double q = 0; for (int i = 0; i < k; i++) q += U[i][j] * t[i][c]; for (int a = 0; a < 3; a++) x[a] += V[a][j] * q / s[j]; }
            for (int i = 0; i < k; i++) { double q = t[i][c]; nb += q * q; for (int a = 0; a < 3; a++) q -= P[i][a] * x[a]; nr += q * q; }
            for (double q : x) nx += q * q;
            nr = std::sqrt(nr); nx = std::sqrt(nx); nb = std::sqrt(nb);
            double tol = 1.5e-5 * (cond * nx + cond * cond * nr / smax + cond * nb / smax) + 1e-7;
            for (int a = 0; a < 3; a++) { near(mc, R[c * 3 + a], D(x[a], 0), "entry of the best matrix", 0, tol); if (!noise) near(mce, R[c * 3 + a], D(M[c * 3 + a], 0), "entry of the true matrix", 0, tol + 2e-6 * cond * (nx + 1)); }
        }
    }
    // two patches: six equations for nine unknowns, minimum norm
    n = N(100);
    for (long it = 0; it < n; it++)
    {
        std::vector<Tristimulus> p{Tristimulus(r.f(0.5, 1), r.f(0, 0.3), r.f(0, 0.3)), Tristimulus(r.f(0, 0.3), r.f(0.5, 1), r.f(0, 0.3))}, t{Tristimulus(r.f(0, 1), r.f(0, 1), r.f(0, 1)), Tristimulus(r.f(0, 1), r.f(0, 1), r.f(0, 1))};
        cur("Corrector::solve two patches", {p[0][0], p[1][1], t[0][0], t[1][2]});
        cfew();
        const Matrix3 R = CS::Corrector::solve(p, t);
        double cr[3] = {(double)p[0][1] * p[1][2] - (double)p[0][2] * p[1][1], (double)p[0][2] * p[1][0] - (double)p[0][0] * p[1][2], (double)p[0][0] * p[1][1] - (double)p[0][1] * p[1][0]};
        for (int c = 0; c < 3; c++)
        {
            for (int i = 0; i < 2; i++) near(mmin, (double)R[c * 3] * p[i][0] + (double)R[c * 3 + 1] * p[i][1] + (double)R[c * 3 + 2] * p[i][2], D(t[i][c], 0), "patch is matched", 0, 2e-4);
            near(mmin, R[c * 3] * cr[0] + R[c * 3 + 1] * cr[1] + R[c * 3 + 2] * cr[2], D(0, 0), "nothing along the unseen direction", 0, 2e-4);
        }
    }
    // chart
    n = N(300);
    const CS::Observer scaled(Spectrum::mul(CS::CIE1931_X, 2.f), Spectrum::mul(CS::CIE2012_Y, 0.5f), Spectrum::mul(CS::CIE1931_JuddVos_Z, 3.f));
    const CS::Observer part(CS::CIE2012_X, CS::CIE1931_Y, CS::CIE2012_Z), part2(CS::CIE1931_X, CS::CIE1931_Y, CS::CIE1931_JuddVos_Z); // share parts with the default observer
    const CS::Observer *ob[7] = {&CS::CIE1931, &CS::CIE2012, &CS::CIE1931, &CS::CIE31JV, &scaled, &part, &part2};
    for (long it = 0; it < n; it++)
    {
        float T = r.f(2000, 10000);
        int o = r.below(7);
        Spectrum light = r.below(6) == 0 ? Spectrum::E(r.logf_(0.1, 10)) : r.below(2) ? Spectrum::blackbody(T) : Spectrum::mul(CS::CIE_D65, r.f(0.2, 3));
        bool defaults = o == 2;
        if (defaults) light = CS::CIE_D65;
        const std::vector<Tristimulus> ref = CS::Macbeth::reference(light, *ob[o]);
        double M[9], mean = 0;
        for (auto &x : M) x = gauss(r) * 0.15;
        M[0] += 1; M[4] += 1; M[8] += 1;
        const int np = r.below(4) ? 24 : 4 + r.below(20); // patches pair with the chart's first ones
        if (np < 24) cshort();
        std::vector<Tristimulus> p(np);
        for (int i = 0; i < np; i++)
        {
            float u[3];
            for (int c = 0; c < 3; c++) u[c] = (float)(M[c * 3] * ref[i][0] + M[c * 3 + 1] * ref[i][1] + M[c * 3 + 2] * ref[i][2]);
            p[i] = Tristimulus(u[0], u[1], u[2]);
            mean = std::max(mean, (double)std::max(ref[i][0], std::max(ref[i][1], ref[i][2])));
        }
        const std::vector<Tristimulus> p0(p);
        cur("chart", {T, (double)o, M[0], M[1], M[8], p[0][0]});
        cchart();
        const Matrix3 R = defaults ? CS::Corrector::solve(p) : CS::Corrector::solve(p, light, *ob[o]);
        const Gamut G = defaults ? CS::Corrector::makeGamut("camera", p) : CS::Corrector::makeGamut("camera", p, light, *ob[o]);
        check(mg, strcmp(G.name(), "camera") == 0, "name");
        for (int i = 0; i < np; i++) check(marg, p[i][0] == p0[i][0] && p[i][1] == p0[i][1] && p[i][2] == p0[i][2], "the patches were changed");
        double det = M[0] * (M[4] * M[8] - M[5] * M[7]) - M[1] * (M[3] * M[8] - M[5] * M[6]) + M[2] * (M[3] * M[7] - M[4] * M[6]);
        if (std::fabs(det) < 0.2) { skipped_++; continue; }
        if (np < 24) mean *= 4;
        for (int i = 0; i < np; i++)
        {
            const Tristimulus a(R.apply(p[i].vec3())), b = G.toXYZ(p[i]), c = G.fromXYZ(ref[i]);
            for (int k = 0; k < 3; k++)
            {
                near(mcd, a[k], D(ref[i][k], 0), "corrected patch", 0, 2e-4 * mean);
                near(mg, b[k], D(ref[i][k], 0), "toXYZ(patch)", 0, 2e-4 * mean);
                near(mg, c[k], D(p[i][k], 0), "fromXYZ(chart)", 0, 4e-4 * mean);
            }
        }
    }
}
