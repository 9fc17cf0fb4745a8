// C15: sparse arrays against a dense sequential model.
#include "gamon.h"
using namespace gm;
extern "C" {
long wnga_sprs_array_sprsdns_multiply(long, long, long);
long wnga_sprs_array_dnssprs_multiply(long, long, long);
long wnga_sprs_array_create_from_dense(long, long, long);
long wnga_sprs_array_create_from_sparse(long, long);
long wnga_sprs_array_count_sketch(long, long, long *, long *, long);
}

struct Sp {
  int h = -1, type = 0;
  bool l = false;
  long m = 0, n = 0;
  std::vector<char> has;
  std::vector<Val> v;
  void init(int t, bool ll, long mm, long nn) { type = t; l = ll; m = mm; n = nn; has.assign(m * n, 0); v.assign(m * n, ival(t, 0)); }
  Val &at(long i, long j) { return v[i * n + j]; }
  const Val &at(long i, long j) const { return v[i * n + j]; }
  bool on(long i, long j) const { return has[i * n + j]; }
  long nnz() const { long c = 0; for (char x : has) c += x; return c; }
  double top() const { double x = 0; for (auto &q : v) x = std::max({x, (double)std::labs((long)q.i), std::fabs(q.re), std::fabs(q.im)}); return x; }
};
static bool same(int t, const Val &a, const Val &b) { return is_int(t) ? a.i == b.i : a.re == b.re && (!is_cpl(t) || a.im == b.im); }
static long bo(long k, long dim, int n) { long p = k * n / dim; return p >= n ? n - 1 : p; }
static std::string key(const char *op, const Sp &s) { return fmt("%s:%s:%s", op, tname(s.type), s.l ? "i64" : "i32"); }

static void rdist(const Sp &s, int p, long &lo, long &hi, Rng &r) {
  if (s.l || r.one_in(3)) { int64_t a, b; NGA_Sprs_array_row_distribution64(s.h, p, &a, &b); lo = a; hi = b; }
  else { int a, b; NGA_Sprs_array_row_distribution(s.h, p, &a, &b); lo = a; hi = b; }
}
static void cdist(const Sp &s, int p, long &lo, long &hi, Rng &r) {
  if (s.l || r.one_in(3)) { int64_t a, b; NGA_Sprs_array_column_distribution64(s.h, p, &a, &b); lo = a; hi = b; }
  else { int a, b; NGA_Sprs_array_column_distribution(s.h, p, &a, &b); lo = a; hi = b; }
}
template <class T>
static long scan_block(const Sp &s, const T *idx, const T *jdx, const char *val, long ilo, long ihi, long jlo, long jhi, const std::string &K, const char *what) {
  long es = tsize(s.type), n = 0;
  std::vector<char> seen((ihi - ilo + 1) * s.n, 0);
  if (idx[0] != 0) { violation(K + ":index", "%s: first row starts at %ld", what, (long)idx[0]); return 0; }
  for (long i = ilo; i <= ihi; i++) {
    long a = idx[i - ilo], b = idx[i - ilo + 1];
    if (b < a || b - a > s.n) { violation(K + ":index", "%s: row %ld spans %ld..%ld", what, i, a, b); return n; }
    for (long k = a; k < b; k++) {
      long j = jdx[k];
      if (j < jlo || j > jhi) { violation(K + ":index", "%s: row %ld has column %ld outside block %ld..%ld", what, i, j, jlo, jhi); return n; }
      if (seen[(i - ilo) * s.n + j]++) { violation(K + ":twice", "%s: element (%ld,%ld) stored twice", what, i, j); return n; }
      if (!s.on(i, j)) { violation(K + ":extra", "%s: element (%ld,%ld) stored but never added", what, i, j); return n; }
      Val x = load(s.type, val + k * es);
      if (!same(s.type, x, s.at(i, j))) {
        violation(K + ":value", "%s: element (%ld,%ld) is %s, want %s", what, i, j, vstr(s.type, x).c_str(), vstr(s.type, s.at(i, j)).c_str());
        return n;
      }
      n++;
    }
  }
  long want = 0;
  for (long i = ilo; i <= ihi; i++) for (long j = jlo; j <= jhi; j++) want += s.on(i, j);
  if (n != want) violation(K + ":missing", "%s: block [%ld..%ld,%ld..%ld] holds %ld elements, want %ld", what, ilo, ihi, jlo, jhi, n, want);
  return n;
}
static void verify(const Sp &s, Group &g, const std::string &K, Rng &lr) {
  int n = g.size();
  long ilo, ihi;
  rdist(s, g.rank, ilo, ihi, lr);
  for (int p = 0; p < n; p++) {
    long a, b, c, d;
    rdist(s, p, a, b, lr); cdist(s, p, c, d, lr);
    for (long i = 0; i < s.m; i++) if ((bo(i, s.m, n) == p) != (i >= a && i <= b)) { violation(K + ":rows", "rows of process %d of %d given as %ld..%ld of %ld", p, n, a, b, s.m); break; }
    for (long j = 0; j < s.n; j++) if ((bo(j, s.n, n) == p) != (j >= c && j <= d)) { violation(K + ":cols", "columns of block %d of %d given as %ld..%ld of %ld", p, n, c, d, s.n); break; }
  }
  int *bl = nullptr, nb = 0;
  NGA_Sprs_array_col_block_list(s.h, &bl, &nb);
  std::vector<char> listed(n, 0);
  for (int k = 0; k < nb; k++) { if (bl[k] < 0 || bl[k] >= n || listed[bl[k]]) violation(K + ":blocklist", "column block list entry %d is %d", k, bl[k]); else listed[bl[k]] = 1; }
  free(bl);
  for (int p = 0; p < n; p++) {
    long jlo, jhi, want = 0;
    cdist(s, p, jlo, jhi, lr);
    for (long i = ilo; i <= ihi; i++) for (long j = jlo; j <= jhi; j++) want += s.on(i, j);
    if ((want > 0) != (listed[p] != 0)) violation(K + ":blocklist", "column block %d with %ld elements %s", p, want, listed[p] ? "is listed" : "is not listed");
    void *val = nullptr, *ix = nullptr, *jx = nullptr;
    if (s.l) { int64_t *a, *b; NGA_Sprs_array_access_col_block64(s.h, p, &a, &b, &val); ix = a; jx = b; }
    else { int *a, *b; NGA_Sprs_array_access_col_block(s.h, p, &a, &b, &val); ix = a; jx = b; }
    if ((val != nullptr) != (want > 0)) { violation(K + ":access", "column block %d with %ld elements: access gives %s", p, want, val ? "data" : "nothing"); continue; }
    if (!val) { if (ix || jx) violation(K + ":access", "empty column block %d has index pointers", p); continue; }
    if (s.l) scan_block(s, (int64_t *)ix, (int64_t *)jx, (char *)val, ilo, ihi, jlo, jhi, K, "access_col_block");
    else scan_block(s, (int *)ix, (int *)jx, (char *)val, ilo, ihi, jlo, jhi, K, "access_col_block");
  }
  for (int q = 0; q < 2; q++) { // blocks of any process
    int pi = (int)lr.in(0, n - 1), pj = (int)lr.in(0, n - 1);
    long a, b, c, d, want = 0, x0, x1, y0, y1;
    rdist(s, pi, a, b, lr); cdist(s, pj, c, d, lr);
    for (long i = a; i <= b; i++) for (long j = c; j <= d; j++) want += s.on(i, j);
    void *val = (void *)16, *ix = (void *)16, *jx = (void *)16;
    int ok;
    if (s.l) { int64_t *u, *w, e, f, h, k; ok = NGA_Sprs_array_get_block64(s.h, pi, pj, &u, &w, &val, &e, &f, &h, &k); ix = u; jx = w; x0 = e; x1 = f; y0 = h; y1 = k; }
    else { int *u, *w, e, f, h, k; ok = NGA_Sprs_array_get_block(s.h, pi, pj, &u, &w, &val, &e, &f, &h, &k); ix = u; jx = w; x0 = e; x1 = f; y0 = h; y1 = k; }
    if ((ok != 0) != (want > 0)) { violation(K + ":get_block", "get_block(%d,%d) with %ld elements returned %d", pi, pj, want, ok); continue; }
    if (!ok) { if (ix || jx || val) violation(K + ":get_block", "get_block(%d,%d): empty block has pointers", pi, pj); continue; }
    if (x0 != a || x1 != b || y0 != c || y1 != d) violation(K + ":get_block", "get_block(%d,%d) bounds [%ld..%ld,%ld..%ld], want [%ld..%ld,%ld..%ld]", pi, pj, x0, x1, y0, y1, a, b, c, d);
    else if (s.l) scan_block(s, (int64_t *)ix, (int64_t *)jx, (char *)val, a, b, c, d, K + ":get_block", "get_block");
    else scan_block(s, (int *)ix, (int *)jx, (char *)val, a, b, c, d, K + ":get_block", "get_block");
    free(ix); free(jx); free(val);
    count("get_block");
  }
  count("verify");
}

static int patt;
static bool want_on(Rng &r, long i, long j, long m, long n, int how, long a, long b, int d) {
  switch (how) {
  case 0: return r.one_in(d);
  case 1: return i == j || (r.one_in(8) && std::labs(i - j) < 3);
  case 2: return std::labs(i - j) <= 1;
  case 3: return i == a;
  case 4: return j == b;
  case 5: return i == a && j == b;
  case 6: return i >= a && j >= b && r.one_in(2);
  case 7: return i <= a && j <= b && r.one_in(2);
  case 8: return true;
  default: return (i + j) % (2 + d) == 0;
  }
}
// fewer elements, or entries of the row index, than processes cannot be distributed
static bool fits(const Sp &s, int N) {
  if (s.nnz() < N) return false;
  std::vector<long> rows(N, 0);
  std::vector<char> blk(N * N, 0);
  for (long i = 0; i < s.m; i++) { rows[bo(i, s.m, N)]++; for (long j = 0; j < s.n; j++) if (s.on(i, j)) blk[bo(i, s.m, N) * N + bo(j, s.n, N)] = 1; }
  long t = 0;
  for (int p = 0; p < N * N; p++) if (blk[p]) t += rows[p / N] + 1;
  return t >= N;
}
// collective over the group; every element is added by a random member
static Sp make(Rng &gr, Group &g, int type, bool l, long m, long n, long mag) {
  Sp s;
  s.init(type, l, m, n);
  int how = (int)gr.in(0, 9), d = (int)gr.in(2, 8), who = (int)gr.in(0, 2), one = (int)gr.in(0, g.size() - 1);
  patt = how;
  long a = gr.in(0, m - 1), b = gr.in(0, n - 1);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) s.has[i * n + j] = want_on(gr, i, j, m, n, how, a, b, d);
  while (!fits(s, g.size())) s.has[gr.in(0, m * n - 1)] = 1;
  s.h = l ? NGA_Sprs_array_create64(m, n, type) : NGA_Sprs_array_create((int)m, (int)n, type);
  std::vector<long> order;
  for (long k = 0; k < m * n; k++) if (s.has[k]) order.push_back(k);
  gr.shuffle(order);
  char buf[16];
  for (long k : order) {
    Val x = gr.one_in(12) ? ival(type, 0) : rnd_val(type, gr, mag);
    s.v[k] = x;
    long i = k / n, j = k % n;
    int w = who == 0 ? (int)gr.in(0, g.size() - 1) : who == 1 ? one : (int)bo(i, m, g.size());
    if (w != g.rank) continue;
    store(type, buf, x);
    if (l) NGA_Sprs_array_add_element64(s.h, i, j, buf); else NGA_Sprs_array_add_element(s.h, (int)i, (int)j, buf);
  }
  opmark("assemble %ldx%ld %s pattern %d who %d", m, n, tname(type), how, who);
  if (!NGA_Sprs_array_assemble(s.h)) violation(key("assemble", s) + ":failed", "assemble of %ldx%ld failed", m, n);
  count("assemble");
  return s;
}
static void upload(int h, const MArr &m, Group &g) {
  gsync(g);
  if (g.rank == 0) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(m.nd(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    put(h, p, b, false);
  }
  gsync(g);
}
static int dense(Rng &gr, Group &g, MArr &M, const char *name) {
  LayoutOpt o;
  o.kinds = {REG, CHUNK, IRREG};
  Layout L = rnd_layout(gr, M.dims, g.size(), o);
  int h = make_array(L, M.type, M.dims, g, name, gr.one_in(3));
  upload(h, M, g);
  return h;
}
static void dverify(int h, const MArr &m, const std::string &K, const char *what, Group &g) {
  check_all(h, m, K, what);
  check_local(h, m, K + ":local");
  gsync(g);
}
static bool has_dims(int h, const MArr &m, const std::string &K, const char *what) {
  int t, nd, d[8];
  NGA_Inquire(h, &t, &nd, d);
  bool ok = t == m.type && nd == m.nd();
  for (int k = 0; ok && k < nd; k++) ok = d[k] == m.dims[k];
  if (!ok) violation(K + ":shape", "%s: result has type %d, %d dimensions %d x %d; want %s %s", what, t, nd, d[0], nd > 1 ? d[1] : 1, tname(m.type), dimstr(m.dims).c_str());
  return ok;
}

static void run_case(long ci) {
  Rng r(sub_seed(ci));
  begin_case(ci, "sparse");
  Split sp = rnd_split(r, 6);
  if (sp.my()) {
    Group &g = *sp.my();
    Rng gr(sub_seed(ci, 100 + sp.mine)), lr(sub_seed(ci, 5000 + me));
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    int N = g.size(), type = gr.pick(ALLTYPES);
    bool l = gr.one_in(2);
    long big = gr.one_in(4) ? 40 : 14;
    auto dim = [&]() { return gr.one_in(5) ? (long)N : gr.in(N, N + big); };
    long m = dim(), n = gr.one_in(3) ? m : dim(), mag = 5;
    Sp A = make(gr, g, type, l, m, n, mag);
    int pat = patt;
    verify(A, g, key("assemble", A), lr);
    gsync(g);
    int nops = (int)gr.in(2, 5);
    for (int o = 0; o < nops; o++) {
      int op = (int)gr.in(0, 14);
      std::string T = fmt("%ldx%ld %s %s pattern %d on %s", A.m, A.n, tname(type), l ? "i64" : "i32", pat, g.desc.c_str());
      if (A.top() > 200) {
        NGA_Sprs_array_destroy(A.h);
        A = make(gr, g, type, l, m, n, mag);
        pat = patt;
        verify(A, g, key("assemble", A), lr);
        gsync(g);
      }
      char sb[16];
      if (op == 0) {
        Val x = gr.one_in(6) ? ival(type, 0) : rnd_val(type, gr, 3);
        store(type, sb, x);
        opmark("scale %s", T.c_str());
        NGA_Sprs_array_scale(A.h, sb);
        for (long k = 0; k < A.m * A.n; k++) if (A.has[k]) A.v[k] = vmul(type, A.v[k], x);
        verify(A, g, key("scale", A), lr); count("scale");
      } else if (op == 1) {
        Val x = rnd_val(type, gr, 9);
        store(type, sb, x);
        opmark("shift_diag %s", T.c_str());
        NGA_Sprs_array_shift_diag(A.h, sb);
        for (long k = 0; k < std::min(A.m, A.n); k++) if (A.on(k, k)) A.at(k, k) = vadd(type, A.at(k, k), x);
        verify(A, g, key("shift_diag", A), lr); count("shift_diag");
      } else if (op == 2 || op == 3) {
        MArr d(type, {op == 2 ? A.m : A.n});
        for (long k = 0; k < d.n; k++) d.set(k, rnd_val(type, gr, 3));
        int h = dense(gr, g, d, "diag");
        opmark("diag_%s_multiply %s", op == 2 ? "left" : "right", T.c_str());
        if (op == 2) NGA_Sprs_array_diag_left_multiply(A.h, h); else NGA_Sprs_array_diag_right_multiply(A.h, h);
        for (long i = 0; i < A.m; i++) for (long j = 0; j < A.n; j++) if (A.on(i, j)) A.at(i, j) = vmul(type, A.at(i, j), d.get(op == 2 ? i : j));
        verify(A, g, key(op == 2 ? "diag_left" : "diag_right", A), lr); count(op == 2 ? "diag_left" : "diag_right");
        dverify(h, d, key("diag_multiply:vector", A), "diagonal vector", g);
        GA_Destroy(h);
      } else if (op == 4) {
        opmark("get_diag %s", T.c_str());
        int h = -1;
        NGA_Sprs_array_get_diag(A.h, &h);
        MArr d(type, {A.m});
        for (long k = 0; k < A.m; k++) d.set(k, k < A.n && A.on(k, k) ? A.at(k, k) : ival(type, 0));
        if (has_dims(h, d, key("get_diag", A), "get_diag")) dverify(h, d, key("get_diag", A), "get_diag", g);
        GA_Destroy(h); count("get_diag");
      } else if (op == 5) {
        if (type == C_LONGLONG) continue;
        MArr x(type, {A.n}), y(type, {A.m});
        for (long k = 0; k < x.n; k++) x.set(k, rnd_val(type, gr, 5));
        for (long k = 0; k < y.n; k++) y.set(k, rnd_val(type, gr, 5));
        int hx = dense(gr, g, x, "x"), hy = dense(gr, g, y, "y");
        opmark("matvec %s", T.c_str());
        NGA_Sprs_array_matvec_multiply(A.h, hx, hy);
        for (long i = 0; i < A.m; i++) {
          Val s = ival(type, 0);
          for (long j = 0; j < A.n; j++) if (A.on(i, j)) s = vadd(type, s, vmul(type, A.at(i, j), x.get(j)));
          y.set(i, s);
        }
        dverify(hy, y, key("matvec", A), "matvec", g);
        dverify(hx, x, key("matvec:vector", A), "matvec operand", g);
        GA_Destroy(hx); GA_Destroy(hy); count("matvec");
      } else if (op == 6) {
        opmark("duplicate %s", T.c_str());
        Sp B = A;
        B.h = NGA_Sprs_array_duplicate(A.h);
        verify(B, g, key("duplicate", A), lr);
        gsync(g);
        Val x = rnd_val(type, gr, 3);
        store(type, sb, x);
        bool other = gr.one_in(2);
        NGA_Sprs_array_scale(other ? A.h : B.h, sb);
        Sp &S = other ? A : B;
        for (long k = 0; k < A.m * A.n; k++) if (S.has[k]) S.v[k] = vmul(type, S.v[k], x);
        verify(B, g, key("duplicate:after", A), lr);
        gsync(g);
        if (!NGA_Sprs_array_destroy(B.h)) violation(key("destroy", A), "destroy of a duplicate failed");
        count("duplicate");
      } else if (op == 7) {
        long k2 = gr.one_in(3) ? A.m : dim();
        Sp B = gr.one_in(6) && A.m == A.n ? A : make(gr, g, type, l, A.n, k2, mag);
        bool self = B.h == A.h;
        Sp C;
        C.init(type, l, A.m, B.n);
        for (long i = 0; i < A.m; i++) for (long k = 0; k < A.n; k++) if (A.on(i, k)) for (long j = 0; j < B.n; j++) if (B.on(k, j)) {
          C.has[i * C.n + j] = 1;
          C.at(i, j) = vadd(type, C.at(i, j), vmul(type, A.at(i, k), B.at(k, j)));
        }
        if (fits(C, N) && C.top() < 1e7) {
          opmark("matmat %s times %ldx%ld pattern %d", T.c_str(), B.m, B.n, patt);
          C.h = NGA_Sprs_array_matmat_multiply(A.h, B.h);
          gsync(g);
          verify(C, g, key("matmat", A), lr);
          verify(B, g, key("matmat:b", A), lr);
          gsync(g);
          if (gr.one_in(2)) { // the product is an ordinary sparse array
            Val x = rnd_val(type, gr, 3);
            store(type, sb, x);
            if (C.top() * 6 < 1e7) {
              NGA_Sprs_array_scale(C.h, sb);
              for (auto &q : C.v) q = vmul(type, q, x);
              verify(C, g, key("matmat:scaled", A), lr);
              gsync(g);
            }
          }
          if (!NGA_Sprs_array_destroy(C.h)) violation(key("destroy", A), "destroy of a product failed");
          count("matmat");
        }
        if (!self) NGA_Sprs_array_destroy(B.h);
      } else if (op == 8 || op == 9) { // sparse times dense, dense times sparse; C or Fortran order
        bool fo = gr.one_in(3);
        long c = gr.one_in(4) ? gr.in(1, N + 2) : gr.in(1, 20);
        if (op == 9) c = gr.in(N, N + 20);
        long br = op == 8 ? A.n : c, bc = op == 8 ? c : A.m, rr = op == 8 ? A.m : c, rc = op == 8 ? c : A.n;
        auto mk = [&](long x, long y) { return fo ? MArr(type, {y, x}) : MArr(type, {x, y}); };
        MArr B = mk(br, bc), C = mk(rr, rc);
        auto at = [&](const MArr &X, long i, long j) { return fo ? j * X.dims[1] + i : i * X.dims[1] + j; };
        for (long k = 0; k < B.n; k++) B.set(k, rnd_val(type, gr, 5));
        double top = 0;
        for (long i = 0; i < rr; i++) for (long j = 0; j < rc; j++) {
          Val s = ival(type, 0);
          if (op == 8) { for (long k = 0; k < A.n; k++) if (A.on(i, k)) s = vadd(type, s, vmul(type, A.at(i, k), B.get(at(B, k, j)))); }
          else for (long k = 0; k < A.m; k++) if (A.on(k, j)) s = vadd(type, s, vmul(type, B.get(at(B, i, k)), A.at(k, j)));
          C.set(at(C, i, j), s);
          top = std::max({top, std::fabs(s.re), std::fabs(s.im)});
        }
        if (top > 1e7) continue;
        int hb = dense(gr, g, B, "B");
        const char *nm = op == 8 ? (fo ? "sprsdns:f" : "sprsdns") : (fo ? "dnssprs:f" : "dnssprs");
        opmark("%s %s with %ld", nm, T.c_str(), c);
        int hc = op == 8 ? (fo ? (int)wnga_sprs_array_sprsdns_multiply(A.h, hb, 0) : NGA_Sprs_array_sprsdns_multiply(A.h, hb))
                         : (fo ? (int)wnga_sprs_array_dnssprs_multiply(hb, A.h, 0) : NGA_Sprs_array_dnssprs_multiply(hb, A.h));
        gsync(g);
        if (has_dims(hc, C, key(nm, A), nm)) dverify(hc, C, key(nm, A), nm, g);
        dverify(hb, B, key(nm, A) + ":operand", "dense operand", g);
        GA_Destroy(hb); GA_Destroy(hc); count(op == 8 ? "sprsdns" : "dnssprs");
      } else if (op == 10) {
        long j = gr.in(0, A.n - 1);
        opmark("get_column %ld %s", j, T.c_str());
        int h = gr.one_in(2) ? NGA_Sprs_array_get_column(A.h, (int)j) : NGA_Sprs_array_get_column64(A.h, j);
        MArr d(type, {A.m});
        for (long k = 0; k < A.m; k++) d.set(k, A.on(k, j) ? A.at(k, j) : ival(type, 0));
        gsync(g);
        if (has_dims(h, d, key("get_column", A), "get_column")) dverify(h, d, key("get_column", A), "get_column", g);
        GA_Destroy(h); count("get_column");
      } else if (op == 11) {
        bool fo = gr.one_in(3);
        long a = dim(), b = dim();
        Sp B;
        B.init(type, l, a, b);
        MArr D = fo ? MArr(type, {b, a}) : MArr(type, {a, b});
        int den = (int)gr.in(1, 9); // the diagonal alone has enough elements
        for (long i = 0; i < a; i++) for (long j = 0; j < b; j++) {
          Val x = gr.one_in(den) ? rnd_val(type, gr, 9) : ival(type, 0);
          if (is_cpl(type) && gr.one_in(3)) x.re = 0;
          bool nzv = x.i || x.re != 0 || x.im != 0;
          D.set(fo ? j * a + i : i * b + j, x);
          if (nzv || i == j) { B.has[i * b + j] = 1; B.at(i, j) = x; }
        }
        if (!fits(B, N)) continue;
        int hd = dense(gr, g, D, "D");
        opmark("create_from_dense %ldx%ld %s%s", a, b, T.c_str(), fo ? " fortran" : "");
        B.h = fo ? (int)wnga_sprs_array_create_from_dense(hd, l ? 8 : 4, 0) : l ? NGA_Sprs_array_create_from_dense64(hd) : NGA_Sprs_array_create_from_dense(hd);
        verify(B, g, key("from_dense", A), lr);
        gsync(g);
        NGA_Sprs_array_destroy(B.h);
        GA_Destroy(hd); count("from_dense");
      } else if (op == 12) {
        bool fo = gr.one_in(3);
        opmark("create_from_sparse %s%s", T.c_str(), fo ? " fortran" : "");
        int h = fo ? (int)wnga_sprs_array_create_from_sparse(A.h, 0) : NGA_Sprs_array_create_from_sparse(A.h);
        MArr D = fo ? MArr(type, {A.n, A.m}) : MArr(type, {A.m, A.n});
        for (long i = 0; i < A.m; i++) for (long j = 0; j < A.n; j++) D.set(fo ? j * A.m + i : i * A.n + j, A.on(i, j) ? A.at(i, j) : ival(type, 0));
        if (has_dims(h, D, key("from_sparse", A), "create_from_sparse")) dverify(h, D, key("from_sparse", A), "create_from_sparse", g);
        GA_Destroy(h); count("from_sparse");
      } else if (op == 13) {
        std::string fn = std::string(outdir) + fmt("/sprs.%ld.%d.%d", ci, g.mem[0], fid_base);
        opmark("export %s", T.c_str());
        NGA_Sprs_array_export(A.h, fn.c_str());
        if (g.rank == 0) {
          FILE *f = fopen(fn.c_str(), "r");
          char line[512];
          long a = -1, b = -1, c = -1, seen = 0;
          if (!f || !fgets(line, sizeof line, f) || strncmp(line, "%%MatrixMarket matrix coordinate", 32) || fscanf(f, "%ld %ld %ld", &a, &b, &c) != 3 || a != A.m || b != A.n || c != A.nnz())
            violation(key("export:header", A), "export header: %ld %ld %ld, want %ld %ld %ld", a, b, c, A.m, A.n, A.nnz());
          std::vector<char> s2(A.m * A.n, 0);
          long i, j;
          while (f && fscanf(f, "%ld %ld", &i, &j) == 2) {
            Val x;
            if (is_int(type)) { long q; if (fscanf(f, "%ld", &q) != 1) break; x.i = q; }
            else if (fscanf(f, "%lf", &x.re) != 1 || (is_cpl(type) && fscanf(f, "%lf", &x.im) != 1)) break;
            i--; j--;
            if (i < 0 || i >= A.m || j < 0 || j >= A.n || !A.on(i, j) || s2[i * A.n + j]++) { violation(key("export:element", A), "export lists element (%ld,%ld) that is absent or was listed", i, j); break; }
            if (!same(type, x, A.at(i, j))) { violation(key("export:value", A), "export: (%ld,%ld) is %s, want %s", i, j, vstr(type, x).c_str(), vstr(type, A.at(i, j)).c_str()); break; }
            seen++;
          }
          if (seen != A.nnz()) violation(key("export:missing", A), "export lists %ld elements, want %ld", seen, A.nnz());
          if (f) fclose(f);
          unlink(fn.c_str());
        }
        gsync(g); count("export");
      } else {
        if (type == C_LONGLONG) continue;
        bool fo = gr.one_in(3);
        long sk = gr.in(1, A.m);
        opmark("count_sketch %ld %s", sk, T.c_str());
        long lk = -1, lw = -1;
        int hk, hw, h;
        if (fo) { h = (int)wnga_sprs_array_count_sketch(A.h, sk, &lk, &lw, 0); hk = (int)lk; hw = (int)lw; }
        else h = NGA_Sprs_array_count_sketch(A.h, (int)sk, &hk, &hw);
        gsync(g);
        MArr kk(C_INT, {A.m}), ww(type, {A.m}), C = fo ? MArr(type, {A.n, sk}) : MArr(type, {sk, A.n});
        if (has_dims(hk, kk, key("sketch:k", A), "sketch labels") && has_dims(hw, ww, key("sketch:w", A), "sketch weights") && has_dims(h, C, key("sketch", A), "sketch")) {
          Buf bk(C_INT, whole(kk.dims), VL(1, 0)), bw(type, whole(ww.dims), VL(1, 0));
          get(hk, whole(kk.dims), bk, false); get(hw, whole(ww.dims), bw, false);
          bool ok = true;
          for (long i = 0; i < A.m; i++) {
            long q = load(C_INT, bk.at({i})).i;
            Val w = load(type, bw.at({i}));
            if (q < 0 || q >= sk) { violation(key("sketch:k", A), "row %ld has label %ld of %ld", i, q, sk); ok = false; break; }
            if (!same(type, w, ival(type, 1)) && !same(type, w, ival(type, -1))) { violation(key("sketch:w", A), "row %ld has weight %s", i, vstr(type, w).c_str()); ok = false; break; }
            for (long j = 0; j < A.n; j++) if (A.on(i, j)) { long p = fo ? j * sk + q : q * A.n + j; C.set(p, vadd(type, C.get(p), vmul(type, w, A.at(i, j)))); }
          }
          if (ok) dverify(h, C, key("sketch", A), "count_sketch", g);
        }
        gsync(g);
        GA_Destroy(h); GA_Destroy(hk); GA_Destroy(hw); count("sketch");
      }
      verify(A, g, key("kept", A), lr);
      gsync(g);
    }
    opmark("destroy");
    if (!NGA_Sprs_array_destroy(A.h)) violation(key("destroy", A), "destroy failed");
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
