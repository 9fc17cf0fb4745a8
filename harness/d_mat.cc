// C09: matrix utilities against the sequential definition.
#include <climits>
#include "gamon.h"
#include <cmath>
using namespace gm;

static bool near(int t, const Val &a, const Val &b) {
  if (is_int(t)) return a.i == b.i;
  double eps = (t == C_FLOAT || t == C_SCPL) ? 2e-5 : 1e-12;
  double s = std::max({1e-30, std::hypot(a.re, a.im), std::hypot(b.re, b.im)});
  return std::fabs(a.re - b.re) <= eps * s && std::fabs(a.im - b.im) <= eps * s;
}
static bool bc(const Layout &l) { return l.kind == BCYC || l.kind == SCALA || l.kind == TILED || l.kind == TILEDIRR; }
static double mod(int t, const Val &v) { return is_int(t) ? (double)std::labs(v.i) : is_cpl(t) ? std::hypot(v.re, v.im) : std::fabs(v.re); }

static void refill(int h, MArr &m, Rng &r, Group &g, long mag, int how) {
  for (long i = 0; i < m.n; i++) {
    Val v = rnd_val(m.type, r, mag);
    if (how == 1) { v.i = std::labs(v.i); v.re = std::fabs(v.re); v.im = 0; }   // not negative
    if (how == 2) { long k = r.in(-2, 2); v = ival(m.type, k); }                // many ties and zeros
    if (how == 3) { v.i = v.i < 0 ? v.i : -v.i - 1; v.re = -std::fabs(v.re) - 1; } // negative only
    m.set(i, v);
  }
  gsync(g);
  if (g.rank == 0) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(m.dims.size(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    opmark("refill");
    put(h, p, b, false);
  }
  gsync(g);
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    static const std::vector<int> types = {C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL};
    int type = gr.pick(types);
    bool square = gr.one_in(2);
    VL dims = rnd_dims(gr, 2, 1200);
    if (square) dims[1] = dims[0];
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    LayoutOpt vlo({REG, CHUNK, IRREG, BCYC});
    VL dd = {std::min(dims[0], dims[1])}, dr = {dims[0]}, dc = {dims[1]};
    Layout Ld = rnd_layout(gr, dd, g.size(), vlo), Lr = rnd_layout(gr, dr, g.size(), vlo), Lc = rnd_layout(gr, dc, g.size(), vlo);
    begin_case(i, fmt("%s %s dims=%s %s | %s | %s | %s", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), Ld.str().c_str(), Lr.str().c_str(), Lc.str().c_str()));
    opmark("create");
    MArr A(type, dims), D(type, dd), R(type, dr), C(type, dc);
    int ha = make_array(L, type, dims, g, "mat"), hd = make_array(Ld, type, dd, g, "diag"), hr = make_array(Lr, type, dr, g, "rows"), hc = make_array(Lc, type, dc, g, "cols");
    refill(ha, A, gr, g, 100, 0); refill(hd, D, gr, g, 100, 0); refill(hr, R, gr, g, 100, 0); refill(hc, C, gr, g, 100, 0);
    bool ghost = L.kind == GHOST || L.kind == GHOSTIRR;
    std::string K = bc(L) ? ":bc" : ghost ? ":ghost" : "";
    auto verify = [&](const std::string &key, const char *what, bool loose = false) {
      gsync(g);
      if (loose) {
        Patch p = whole(dims);
        Buf b(type, p, VL(2, 0));
        get(ha, p, b, false);
        each(p, [&](const VL &ix, long) {
          Val got = load(type, b.at(ix)), want = A.get(A.lin(ix));
          if (!near(type, got, want)) violation(key, "%s: (%ld,%ld) got %s want %s", what, ix[0], ix[1], vstr(type, got).c_str(), vstr(type, want).c_str());
          A.set(A.lin(ix), got);
        });
        count("elements_compared", A.n);
      } else check_all(ha, A, key, what);
      check_local(ha, A, key + ":local");
      check_all(hd, D, key + ":vector", what); check_all(hr, R, key + ":vector", what); check_all(hc, C, key + ":vector", what);
      check_local(hd, D, key + ":vector-local");
      gsync(g);
    };
    long nd = dd[0];
    for (int e = 0, E = (int)gr.in(3, 8); e < E; e++) {
      int op = (int)gr.in(0, 13);
      bool mk = gr.one_in(4);
      auto mask = [&]() { if (mk) { gsync(g); GA_Mask_sync(gr.one_in(2), gr.one_in(2)); } };
      auto unmask = [&]() { if (mk) gsync(g); };
      if (gr.one_in(3)) refill(ha, A, gr, g, 100, (int)gr.in(0, 3));
      if (op == 0) {
        opmark("get_diag");
        mask(); GA_Get_diag(ha, hd); unmask();
        for (long k = 0; k < nd; k++) D.set(k, A.get(A.lin({k, k})));
        verify("get_diag" + K, "get_diag"); count("get_diag");
      } else if (op == 1) {
        if (gr.one_in(2)) refill(hd, D, gr, g, 100, 0);
        opmark("set_diagonal");
        mask(); GA_Set_diagonal(ha, hd); unmask();
        for (long k = 0; k < nd; k++) A.set(A.lin({k, k}), D.get(k));
        verify("set_diagonal" + K, "set_diagonal"); count("set_diagonal");
      } else if (op == 2) {
        opmark("add_diagonal");
        mask(); GA_Add_diagonal(ha, hd); unmask();
        for (long k = 0; k < nd; k++) A.set(A.lin({k, k}), vadd(type, A.get(A.lin({k, k})), D.get(k)));
        verify("add_diagonal" + K, "add_diagonal"); count("add_diagonal");
      } else if (op == 3) {
        Val v = rnd_val(type, gr, 50); char b[16]; store(type, b, v);
        opmark("shift_diagonal");
        mask(); GA_Shift_diagonal(ha, b); unmask();
        for (long k = 0; k < nd; k++) A.set(A.lin({k, k}), vadd(type, A.get(A.lin({k, k})), v));
        verify("shift_diagonal" + K, "shift_diagonal"); count("shift_diagonal");
      } else if (op == 4) {
        opmark("zero_diagonal");
        mask(); GA_Zero_diagonal(ha); unmask();
        for (long k = 0; k < nd; k++) A.set(A.lin({k, k}), ival(type, 0));
        verify("zero_diagonal" + K, "zero_diagonal"); count("zero_diagonal");
      } else if (op == 5) {
        refill(ha, A, gr, g, 50, 0); refill(hr, R, gr, g, 10, 0);
        opmark("scale_rows");
        mask(); GA_Scale_rows(ha, hr); unmask();
        each(whole(dims), [&](const VL &ix, long) { long l = A.lin(ix); A.set(l, vmul(type, A.get(l), R.get(ix[0]))); });
        verify("scale_rows" + K, "scale_rows", !is_int(type)); refill(ha, A, gr, g, 100, 0); count("scale_rows");
      } else if (op == 6) {
        refill(ha, A, gr, g, 50, 0); refill(hc, C, gr, g, 10, 0);
        opmark("scale_cols");
        mask(); GA_Scale_cols(ha, hc); unmask();
        each(whole(dims), [&](const VL &ix, long) { long l = A.lin(ix); A.set(l, vmul(type, A.get(l), C.get(ix[1]))); });
        verify("scale_cols" + K, "scale_cols", !is_int(type)); refill(ha, A, gr, g, 100, 0); count("scale_cols");
      } else if (op <= 8) { // norms (reductions over the world)
        if (!g.world) continue;
        bool vec = gr.one_in(4);
        int h = vec ? hr : ha; MArr &M = vec ? R : A;
        bool one = op == 7;
        double want = 0, got = -1;
        for (long k = 0; k < M.n; k++) { double x = mod(type, M.get(k)); want = one ? want + x : std::max(want, x); }
        opmark(one ? "norm1" : "norm_infinity");
        mask(); if (one) GA_Norm1(h, &got); else GA_Norm_infinity(h, &got); unmask();
        double eps = (type == C_FLOAT || type == C_SCPL) ? 1e-4 : 1e-10;
        if (std::fabs(got - want) > eps * std::max(1.0, want)) violation(std::string(one ? "norm1" : "norm_infinity") + (vec ? bc(Lr) ? ":vector:bc" : ":vector" : K), "got %.12g want %.12g", got, want);
        verify("norm-changed" + K, "norm"); count(one ? "norm1" : "norm_infinity");
      } else if (op <= 10) { // select (world; every type; values may tie)
        if (!g.world) continue;
        int nt = gr.pick(ALLTYPES), k = rnd_nd(gr);
        VL sd = rnd_dims(gr, k, 800);
        Layout S = rnd_layout(gr, sd, g.size(), LayoutOpt({REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR, RESTR, RESTRRANGE, GHOST}));
        MArr M(nt, sd);
        int h = make_array(S, nt, sd, g, "sel");
        std::string SK = bc(S) ? ":bc" : "";
        for (int t = 0, T = (int)gr.in(1, 4); t < T; t++) {
          refill(h, M, gr, g, 1000, (int)gr.in(0, 3));
          bool mx = gr.one_in(2);
          char v[16], op2[4]; strcpy(op2, mx ? "max" : "min");
          int ix[8]; int64_t l6[8];
          opmark("select %s %s %s %s", op2, tname(nt), dimstr(sd).c_str(), S.str().c_str());
          bool w = gr.one_in(2);
          if (w) { NGA_Select_elem64(h, op2, v, l6); for (int q = 0; q < k; q++) ix[q] = (int)l6[q]; } else NGA_Select_elem(h, op2, v, ix);
          auto rank = [&](const Val &x) { return is_int(nt) ? (double)x.i : is_cpl(nt) ? x.re * x.re + x.im * x.im : x.re; };
          double best = rank(M.get(0));
          for (long q = 1; q < M.n; q++) best = mx ? std::max(best, rank(M.get(q))) : std::min(best, rank(M.get(q)));
          VL at(ix, ix + k); std::string s; bool in = true;
          for (int q = 0; q < k; q++) { s += fmt("%ld,", at[q]); in = in && at[q] >= 0 && at[q] < sd[q]; }
          if (!in) violation("select-index" + SK, "%s: index (%s) is outside %s", op2, s.c_str(), dimstr(sd).c_str());
          Val got = load(nt, v), there = M.get(M.lin(at));
          if (rank(got) != best) violation("select-value" + SK, "%s of %s %s %s: got %s at (%s)", op2, tname(nt), dimstr(sd).c_str(), S.str().c_str(), vstr(nt, got).c_str(), s.c_str());
          if (memcmp(v, M.at(M.lin(at)), M.es)) violation("select-index" + SK, "%s of %s %s %s: %s is not the element at (%s), which is %s", op2, tname(nt), dimstr(sd).c_str(), S.str().c_str(), vstr(nt, got).c_str(), s.c_str(), vstr(nt, there).c_str());
          check_all(h, M, "select-changed" + SK, "select");
          count("select");
        }
        gsync(g);
        GA_Destroy(h);
      } else if (op == 11) { // symmetrize: doubles, the last two (C: first two) extents equal
        int k = (int)gr.in(2, 3);
        long n = gr.in(1, k == 2 ? 30 : 9);
        VL sd = {n, n};
        if (k == 3) sd.push_back(gr.in(1, 8));
        Layout S = rnd_layout(gr, sd, g.size(), k == 2 ? (g.world ? LayoutOpt({REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR}) : LayoutOpt({REG, CHUNK, IRREG})) : LayoutOpt({REG, CHUNK, IRREG}));
        MArr M(C_DBL, sd);
        int h = make_array(S, C_DBL, sd, g, "sym");
        refill(h, M, gr, g, 1000, 0);
        opmark("symmetrize %s %s", dimstr(sd).c_str(), S.str().c_str());
        mask(); GA_Symmetrize(h); unmask();
        MArr N(C_DBL, sd);
        each(whole(sd), [&](const VL &ix, long) { VL t = ix; std::swap(t[0], t[1]); Val v; v.re = 0.5 * (M.get(M.lin(ix)).re + M.get(M.lin(t)).re); N.set(N.lin(ix), v); });
        std::string key = std::string("symmetrize") + (bc(S) ? ":bc" : "") + (k == 3 ? ":3d" : "");
        check_all(h, N, key, fmt("symmetrize %s %s", dimstr(sd).c_str(), S.str().c_str()).c_str());
        check_local(h, N, key + ":local");
        count("symmetrize");
        gsync(g);
        GA_Destroy(h);
      } else { // step_max, step_bound_info: real types, world
        if (!g.world) continue;
        static const std::vector<int> rt = {C_INT, C_LONG, C_FLOAT, C_DBL};
        int nt = gr.pick(rt), k = (int)gr.in(1, 3);
        VL sd = rnd_dims(gr, k, 500);
        bool bound = op == 13, patch = gr.one_in(2);
        Layout S = rnd_layout(gr, sd, g.size(), LayoutOpt({REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR})), S2 = gr.one_in(3) && !bound && !bc(S) ? rnd_layout(gr, sd, g.size(), LayoutOpt({REG, CHUNK, IRREG})) : S;
        Patch p = patch ? rnd_patch(gr, sd) : whole(sd);
        if (p.size() == whole(sd).size()) patch = false;
        Dims pl(p.lo), ph(p.hi);
        std::string SK = std::string(patch ? "_patch" : "") + (bc(S) ? ":bc" : "");
        MArr X(nt, sd), V(nt, sd), LL(nt, sd), UU(nt, sd);
        int hx = make_array(S, nt, sd, g, "xx"), hv = make_array(S2, nt, sd, g, "vv"), hl = 0, hu = 0;
        double inf = nt == C_INT ? 2147483647.0 : nt == C_LONG ? (double)LONG_MAX : nt == C_FLOAT ? 1e37 : 1e307;
        refill(hv, V, gr, g, 20, (int)gr.in(0, 3));
        auto num = [&](const MArr &m, long q) { Val v = m.get(q); return is_int(nt) ? (double)v.i : v.re; };
        auto outv = [&](const char *b) { Val v = load(nt, b); return is_int(nt) ? (double)v.i : v.re; };
        auto div = [&](double a, double b) { return is_int(nt) ? (double)((long)a / (long)b) : nt == C_FLOAT ? (double)((float)a / (float)b) : a / b; };
        auto same = [&](double a, double b) { return a == b || (a >= inf && b >= inf) || std::fabs(a - b) <= 1e-5 * std::fabs(b); };
        if (!bound) {
          refill(hx, X, gr, g, 100, gr.one_in(3) ? 2 : 1);
          for (long q = 0; q < X.n; q++) if (num(X, q) < 0) X.set(q, ival(nt, 0));
          gsync(g); if (g.rank == 0) { Patch w = whole(sd); Buf b(nt, w, VL(k, 0)); memcpy(b.ptr(), X.d.data(), X.n * X.es); put(hx, w, b, false); } gsync(g);
          // the largest s with x + s*v >= 0 everywhere
          double want = inf;
          each(p, [&](const VL &ix, long) { long q = X.lin(ix); if (num(V, q) < 0) want = std::min(want, std::fabs(div(num(X, q), num(V, q)))); });
          char res[16];
          opmark("step_max%s", SK.c_str());
          if (!patch) GA_Step_max(hx, hv, res); else GA_Step_max_patch(hx, pl.i, ph.i, hv, pl.i, ph.i, res);
          if (!same(outv(res), want)) violation("step_max" + SK, "%s %s %s: got %g want %g", tname(nt), dimstr(sd).c_str(), p.str().c_str(), outv(res), want);
          count("step_max");
        } else {
          refill(hx, X, gr, g, 100, 0);
          hl = make_array(S, nt, sd, g, "ll"); hu = make_array(S, nt, sd, g, "uu");
          refill(hl, LL, gr, g, 20, 1); refill(hu, UU, gr, g, 20, 1);
          for (long q = 0; q < X.n; q++) { // ll <= xx <= uu, often equal
            Val x = X.get(q), a = LL.get(q), b = UU.get(q);
            if (gr.one_in(3)) { a.i = 0; a.re = 0; } if (gr.one_in(3)) { b.i = 0; b.re = 0; }
            a.i = x.i - a.i; a.re = x.re - a.re; b.i += x.i; b.re += x.re;
            LL.set(q, a); UU.set(q, b);
          }
          gsync(g);
          if (g.rank == 0) { Patch w = whole(sd); Buf b(nt, w, VL(k, 0)); memcpy(b.ptr(), LL.d.data(), X.n * X.es); put(hl, w, b, false); memcpy(b.ptr(), UU.d.data(), X.n * X.es); put(hu, w, b, false); }
          gsync(g);
          double bmin = inf, bmax = -1, wolfe = inf;
          each(p, [&](const VL &ix, long) {
            long q = X.lin(ix);
            double v = num(V, q), up = num(UU, q) - num(X, q), dn = num(X, q) - num(LL, q), t;
            if (v > 0) t = div(up, v); else if (v < 0) t = div(dn, -v); else t = up == 0 || dn == 0 ? 0 : inf;
            if (v != 0) wolfe = std::min(wolfe, t);
            bmin = std::min(bmin, t); bmax = std::max(bmax, t);
          });
          char a[16], b[16], w[16];
          opmark("step_bound%s", SK.c_str());
          if (!patch) GA_Step_bound_info(hx, hv, hl, hu, a, w, b); else GA_Step_bound_info_patch(hx, pl.i, ph.i, hv, pl.i, ph.i, hl, pl.i, ph.i, hu, pl.i, ph.i, a, w, b);
          if (!same(outv(a), bmin) || !same(outv(b), bmax) || !same(outv(w), wolfe)) violation("step_bound" + SK, "%s %s %s: got boundmin %g wolfemin %g boundmax %g, want %g %g %g", tname(nt), dimstr(sd).c_str(), p.str().c_str(), outv(a), outv(w), outv(b), bmin, wolfe, bmax);
          check_all(hl, LL, "step-changed" + SK, "step"); check_all(hu, UU, "step-changed" + SK, "step");
          GA_Destroy(hl); GA_Destroy(hu);
          count("step_bound");
        }
        check_all(hx, X, "step-changed" + SK, "step"); check_all(hv, V, "step-changed" + SK, "step");
        gsync(g);
        GA_Destroy(hx); GA_Destroy(hv);
      }
    }
    gsync(g);
    opmark("destroy");
    GA_Destroy(ha); GA_Destroy(hd); GA_Destroy(hr); GA_Destroy(hc);
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
