// C11: linear solvers and symmetric eigensolvers, judged by residuals.
#include "gamon.h"
#include "trap.h"
using namespace gm;

extern "C" {
typedef long FInt;
void ga_lu_solve_seq_(char *trans, FInt *a, FInt *b, int len);
void ga_lu_solve_(char *trans, FInt *a, FInt *b, int len);
void ga_lu_solve_alt_(FInt *tran, FInt *a, FInt *b);
void ga_diag_seq_(FInt *a, FInt *s, FInt *v, double *eval);
void ga_diag_std_seq_(FInt *a, FInt *v, double *eval);
}
typedef std::vector<double> VD; // column-major (the Fortran view): m[i + j*n]

static Group *G;
// the C array is the transpose of the Fortran view: C dims {cols, rows}
static void load_ga(int h, const VD &m, long rows, long cols) {
  gsync(*G);
  if (G->rank == 0) {
    Patch p = whole(VL{cols, rows});
    Buf b(C_DBL, p, VL(2, 0));
    memcpy(b.ptr(), m.data(), sizeof(double) * rows * cols);
    put(h, p, b, false);
  }
  gsync(*G);
}
static VD fetch(int h, long rows, long cols) {
  VD m(rows * cols);
  Patch p = whole(VL{cols, rows});
  Buf b(C_DBL, p, VL(2, 0));
  get(h, p, b, false);
  memcpy(m.data(), b.ptr(), sizeof(double) * rows * cols);
  return m;
}
static double mx(const VD &v) { double m = 0; for (double x : v) { if (!(std::fabs(x) <= 1e300)) return 1e308; m = std::max(m, std::fabs(x)); } return m; }
static double sgn(Rng &r) { return r.one_in(2) ? 1 : -1; }
static double u(Rng &r) { return 2 * r.unit() - 1; }

// well-conditioned: diagonally dominant with permuted rows, or a product of reflections with bounded singular values
static VD reflect(Rng &r, VD m, long n, bool left) {
  VD h(n);
  double s = 0;
  for (auto &x : h) { x = u(r); s += x * x; }
  if (s < 1e-6) return m;
  for (long j = 0; j < n; j++) {
    double d = 0;
    for (long i = 0; i < n; i++) d += h[i] * (left ? m[i + j * n] : m[j + i * n]);
    d *= 2 / s;
    for (long i = 0; i < n; i++) (left ? m[i + j * n] : m[j + i * n]) -= d * h[i];
  }
  return m;
}
static VD rnd_well(Rng &r, long n) {
  VD m(n * n, 0.0);
  if (r.one_in(2)) {
    for (auto &x : m) x = u(r);
    for (long i = 0; i < n; i++) m[i + i * n] += sgn(r) * (n + 1);
    std::vector<long> p;
    for (long i = 0; i < n; i++) p.push_back(i);
    if (!r.one_in(4)) r.shuffle(p); // needs pivoting
    VD q(n * n);
    double sc = std::pow(10.0, (double)r.in(-3, 3));
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) q[p[i] + j * n] = m[i + j * n] * sc;
    return q;
  }
  for (long i = 0; i < n; i++) m[i + i * n] = sgn(r) * (0.5 + r.unit() * 20);
  for (int k = 0; k < 3; k++) { m = reflect(r, m, n, true); m = reflect(r, m, n, false); }
  return m;
}
static VD rnd_sym(Rng &r, long n, bool spd, VD &ev) {
  VD m(n * n, 0.0);
  ev.assign(n, 0);
  int kind = (int)r.in(0, 4);
  for (long i = 0; i < n; i++) {
    double x = spd ? 0.5 + 5 * r.unit() : 10 * u(r);
    if (kind == 1) x = spd ? (double)r.in(1, 3) : (double)r.in(-2, 2); // repeated (and zero) eigenvalues
    if (kind == 2) x = spd ? 2 : -3;
    ev[i] = x;
    m[i + i * n] = x;
  }
  if (kind != 3) // kind 3: diagonal, unsorted
    for (int k = 0; k < 3; k++) {
      VD h(n);
      double s = 0;
      for (auto &x : h) { x = u(r); s += x * x; }
      if (s < 1e-6) continue;
      auto side = [&](bool left) {
        for (long j = 0; j < n; j++) {
          double d = 0;
          for (long i = 0; i < n; i++) d += h[i] * (left ? m[i + j * n] : m[j + i * n]);
          d *= 2 / s;
          for (long i = 0; i < n; i++) (left ? m[i + j * n] : m[j + i * n]) -= d * h[i];
        }
      };
      side(true); side(false);
    }
  for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) m[j + i * n] = m[i + j * n];
  std::sort(ev.begin(), ev.end());
  return m;
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    G = &g;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    bool big = mode == "big";
    long n = gr.one_in(6) ? gr.in(1, 3) : gr.in(2, big ? 120 : 32);
    n = std::max(n, 1L);
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    int what = (int)gr.in(0, 4);
    long nrhs = gr.one_in(3) ? 1 : gr.in(1, 12);
    VL da = {n, n}, db = {nrhs, n};
    Layout La = rnd_layout(gr, da, g.size(), lo), Lb = rnd_layout(gr, what < 3 ? db : da, g.size(), lo), Ls = rnd_layout(gr, da, g.size(), lo);
    begin_case(i, fmt("%s what=%d n=%ld nrhs=%ld %s | %s | %s", g.desc.c_str(), what, n, nrhs, La.str().c_str(), Lb.str().c_str(), Ls.str().c_str()));
    opmark("create");
    int ha = make_array(La, C_DBL, da, g, "a"), hb = make_array(Lb, C_DBL, what < 3 ? db : da, g, "b"), hs = make_array(Ls, C_DBL, da, g, "s");
    FInt a = ha, b = hb, s = hs;
    auto same = [&](int h, const VD &m, const char *key, const char *w) {
      VD x = fetch(h, n, n);
      if (memcmp(x.data(), m.data(), sizeof(double) * n * n)) violation(key, "%s was changed", w);
    };
    int rep = (int)gr.in(1, 3);
    for (int e = 0; e < rep; e++) {
      if (what < 3) { // linear systems
        VD A = rnd_well(gr, n), X(n * nrhs), B(n * nrhs, 0.0);
        for (auto &x : X) x = u(gr) * 10;
        bool tr = gr.one_in(2);
        for (long j = 0; j < nrhs; j++)
          for (long k = 0; k < n; k++)
            for (long q = 0; q < n; q++) B[q + j * n] += (tr ? A[k + q * n] : A[q + k * n]) * X[k + j * n];
        load_ga(ha, A, n, n);
        load_ga(hb, B, n, nrhs);
        bool sing = gr.one_in(8) && e == rep - 1;
        if (sing) { // a zero row or column: must be refused, with the arrays left alone
          long z = gr.in(0, n - 1);
          bool row = gr.one_in(2);
          for (long k = 0; k < n; k++) A[row ? z + k * n : k + z * n] = 0;
          load_ga(ha, A, n, n);
        }
        int api = n > 100 ? 0 : (int)gr.in(0, 3); // ga_lu_solve is limited to 10000 elements
        char t[2] = {tr ? (gr.one_in(2) ? 't' : 'T') : (gr.one_in(2) ? 'n' : 'N'), 0};
        static const char *nm[] = {"lu_solve_seq", "lu_solve", "lu_solve_alt", "GA_Lu_solve"};
        opmark("%s %s%s", nm[api], tr ? "t" : "n", sing ? " singular" : "");
        FInt ti = tr;
        auto call = [&] {
          if (api == 0) ga_lu_solve_seq_(t, &a, &b, 1);
          else if (api == 1) ga_lu_solve_(t, &a, &b, 1);
          else if (api == 2) ga_lu_solve_alt_(&ti, &a, &b);
          else GA_Lu_solve(t[0], ha, hb);
        };
        if (sing) {
          bool ref = trap::refused(call);
          if (g.rank == 0 && !ref) violation("solve:singular-accepted", "%s of a singular matrix n=%ld reported no error", nm[api], n);
          if (ref) GA_Sync();
          gsync(g);
          VD got = fetch(hb, n, nrhs);
          if (memcmp(got.data(), B.data(), sizeof(double) * n * nrhs)) violation("solve:singular-overwritten", "%s of a singular matrix changed the right-hand side", nm[api]);
          count("singular_refused");
        } else {
          call();
          gsync(g);
          VD got = fetch(hb, n, nrhs);
          double sx = std::max(1.0, mx(X)), worst = 0;
          long w = 0;
          for (long k = 0; k < n * nrhs; k++) { double d = std::fabs(got[k] - X[k]); if (!(d <= worst)) { worst = d; w = k; } }
          if (!(worst <= 1e-9 * n * sx)) violation(fmt("solve:%s", nm[api]), "%s trans=%s n=%ld rhs %ld row %ld: got %.17g want %.17g", nm[api], t, n, w / n, w % n, got[w], X[w]);
          count("solutions", nrhs);
        }
        same(ha, A, "solve:matrix-changed", "the matrix");
      } else {
        VD ev, evs, A = rnd_sym(gr, n, false, ev), S;
        bool gen = what == 4;
        if (gen) { S = rnd_sym(gr, n, true, evs); load_ga(hs, S, n, n); }
        load_ga(ha, A, n, n);
        bool bad = gen && gr.one_in(8) && e == rep - 1;
        if (bad) { // the metric is not positive definite
          long z = gr.in(0, n - 1);
          S[z + z * n] = gr.one_in(2) ? 0 : -1;
          if (gr.one_in(2)) for (long k = 0; k < n; k++) if (k != z) S[z + k * n] = S[k + z * n] = 0;
          load_ga(hs, S, n, n);
        }
        VD E(n + 4, 777.5);
        bool f = gr.one_in(2);
        opmark("diag%s%s %s", gen ? "" : "_std", bad ? " indefinite metric" : "", f ? "f" : "c");
        auto call = [&] {
          if (gen) { if (f) ga_diag_seq_(&a, &s, &b, E.data()); else GA_Diag_seq(ha, hs, hb, E.data()); }
          else { if (f) ga_diag_std_seq_(&a, &b, E.data()); else GA_Diag_std_seq(ha, hb, E.data()); }
        };
        if (bad) {
          VD V0(n * n);
          for (auto &x : V0) x = u(gr);
          load_ga(hb, V0, n, n);
          bool ref = trap::refused(call);
          if (g.rank == 0 && !ref) violation("diag:indefinite-accepted", "diag_seq n=%ld with a metric that is not positive definite reported no error", n);
          if (ref) { GA_Brdcst(E.data(), (int)(n * sizeof(double)), 0); GA_Sync(); }
          gsync(g);
          same(hb, V0, "diag:indefinite-overwritten", "the eigenvector array of a refused problem");
          count("indefinite_refused");
        } else {
          call();
          gsync(g);
          for (long k = n; k < n + 4; k++) if (E[k] != 777.5) violation("diag:eval-overrun", "n=%ld eigenvalue buffer written at %ld", n, k);
          VD V = fetch(hb, n, n);
          double sa = std::max(1.0, mx(A));
          for (long k = 0; k + 1 < n; k++) if (!(E[k] <= E[k + 1])) violation("diag:order", "eigenvalue %ld=%.17g > %ld=%.17g", k, E[k], k + 1, E[k + 1]);
          if (!gen) for (long k = 0; k < n; k++) if (!(std::fabs(E[k] - ev[k]) <= 1e-9 * n * sa)) violation("diag:value", "n=%ld eigenvalue %ld: got %.17g want %.17g", n, k, E[k], ev[k]);
          for (long k = 0; k < n; k++) {
            for (long q = 0; q < n; q++) {
              double l = 0, rr = 0, o = 0;
              for (long p = 0; p < n; p++) {
                l += A[q + p * n] * V[p + k * n];
                rr += (gen ? S[q + p * n] : (double)(p == q)) * V[p + k * n];
              }
              if (!(std::fabs(l - E[k] * rr) <= 1e-8 * n * sa * 10)) violation("diag:residual", "n=%ld vector %ld row %ld: A v=%.12g, lambda B v=%.12g", n, k, q, l, E[k] * rr);
              for (long p = 0; p < n; p++) {
                if (!gen) { o += V[p + q * n] * V[p + k * n]; continue; }
                double sv = 0;
                for (long z = 0; z < n; z++) sv += S[p + z * n] * V[z + k * n];
                o += V[p + q * n] * sv;
              }
              if (!(std::fabs(o - (q == k)) <= 1e-8 * n)) violation("diag:orthonormal", "n=%ld v%ld . v%ld = %.12g", n, q, k, o);
            }
          }
          count("eigenpairs", n);
          if (gen) same(hs, S, "diag:metric-changed", "the metric");
        }
        same(ha, A, "diag:matrix-changed", "the matrix");
      }
      gsync(g);
    }
    opmark("destroy");
    GA_Destroy(ha); GA_Destroy(hb); GA_Destroy(hs);
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  trap::install();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
