// C10: matrix multiplication against the sequential product (integer-valued operands, exact results).
#include "gamon.h"
#include <cmath>
using namespace gm;

// exported, and public in the Fortran interface, but not declared in ga.h
extern "C" void NGA_Matmul_patch_alt(char, char, void *, void *, int, int[], int[], int, int[], int[], int, int[], int[]);
extern "C" void NGA_Matmul_patch_alt64(char, char, void *, void *, int, int64_t[], int64_t[], int, int64_t[], int64_t[], int, int64_t[], int64_t[]);

static void check_num(int h, MArr &m, const std::string &key, const char *what) { // numeric comparison (-0 equals 0)
  Patch p = whole(m.dims);
  Buf b(m.type, p, VL(m.dims.size(), 0));
  opmark("%s verify get", what);
  get(h, p, b, false);
  long bad = 0; std::string first;
  each(p, [&](const VL &ix, long) {
    Val x = load(m.type, b.at(ix)), y = m.get(m.lin(ix));
    if (!(x.re == y.re && x.im == y.im) && !bad++) { first = "at ("; for (long q : ix) first += fmt("%ld,", q); first += ") got " + vstr(m.type, x) + " want " + vstr(m.type, y); }
  });
  count("elements_compared", m.n);
  if (bad) violation(key, "%s: %ld of %ld elements wrong, first %s", what, bad, m.n, first.c_str());
}

static bool bc(const Layout &l) { return l.kind == BCYC || l.kind == SCALA || l.kind == TILED || l.kind == TILEDIRR; }
static const long MAG = 6;

static void upload(int h, MArr &m, Group &g) {
  gsync(g);
  if (g.rank == 0) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(m.dims.size(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    opmark("upload");
    put(h, p, b, false);
  }
  gsync(g);
}
static void refill(int h, MArr &m, Rng &r, Group &g) {
  for (long i = 0; i < m.n; i++) m.set(i, rnd_val(m.type, r, MAG));
  upload(h, m, g);
}
static Val scal(int t, Rng &r) {
  switch (r.in(0, 4)) {
  case 0: return ival(t, 0);
  case 1: return ival(t, 1);
  case 2: return ival(t, -1);
  case 3: return is_cpl(t) ? ival(t, 0, r.in(1, 3)) : ival(t, 2);
  default: return rnd_val(t, r, 4);
  }
}

// one matrix operand: an array of nd dimensions with the matrix plane on dimensions d0<d1 (C order)
struct Op {
  VL dims; int d0 = 0, d1 = 1; Patch p; MArr m; int h = 0; Layout L;
  long rows() const { return p.hi[d0] - p.lo[d0] + 1; }
  long cols() const { return p.hi[d1] - p.lo[d1] + 1; }
  long lin(long i, long j) const { VL x = p.lo; x[d0] += i; x[d1] += j; return m.lin(x); }
};
// rows x cols patch somewhere in a nd-dimensional array; slack: how much larger the array may be
static void shape(Rng &r, Op &o, int nd, long rows, long cols, bool exact) {
  o.dims.assign(nd, 1);
  o.d0 = 0; o.d1 = 1;
  if (nd > 2) { o.d0 = (int)r.in(0, nd - 2); o.d1 = (int)r.in(o.d0 + 1, nd - 1); }
  o.p.lo.assign(nd, 0); o.p.hi.assign(nd, 0);
  for (int k = 0; k < nd; k++) {
    long n = k == o.d0 ? rows : k == o.d1 ? cols : 1;
    bool plane = k == o.d0 || k == o.d1;
    long before = exact || (plane && r.one_in(3)) ? 0 : r.in(0, plane ? 7 : 2), after = exact || (plane && r.one_in(3)) ? 0 : r.in(0, plane ? 7 : 2);
    o.p.lo[k] = before; o.p.hi[k] = before + n - 1; o.dims[k] = before + n + after;
  }
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    static const std::vector<int> types = {C_DBL, C_DCPL, C_FLOAT, C_SCPL};
    int type = gr.pick(types);
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    int api = (int)gr.in(0, 3); // 0 gemm, 1 GA_Matmul_patch, 2 NGA_Matmul_patch, 3 NGA_Matmul_patch_alt
    bool big = gr.one_in(60), med = gr.one_in(4);
    auto ext = [&]() { return gr.one_in(8) ? 1 : big ? gr.in(200, 330) : med ? gr.in(1, 90) : gr.in(1, 20); };
    long m = ext(), n = ext(), k = ext();
    if (big && m * n * k > 30000000) k = gr.in(1, 60);
    int nda = 2, ndb = 2, ndc = 2;
    if (api >= 2 && gr.one_in(2)) {
      nda = (int)gr.in(2, 4); ndb = (int)gr.in(2, 4); ndc = (int)gr.in(2, 4);
      m = std::max(2L, std::min(m, 25L)); n = std::max(2L, std::min(n, 25L)); k = std::max(2L, std::min(k, 25L));
    }
    bool ta = gr.one_in(2), tb = gr.one_in(2);
    bool exact = gr.one_in(3);
    // block-cyclic operands: no transposes (documented), two dimensions
    bool blk = gr.one_in(4) && nda == 2 && ndb == 2 && ndc == 2;
    if (blk) ta = tb = false;
    Op A, B, C;
    shape(gr, A, nda, ta ? k : m, ta ? m : k, exact);
    shape(gr, B, ndb, tb ? n : k, tb ? k : n, exact);
    shape(gr, C, ndc, m, n, exact);
    if (api == 0) for (Op *o : {&A, &B, &C}) // gemm: the leading part of the arrays
      for (int q = 0; q < 2; q++) { o->p.hi[q] -= o->p.lo[q]; o->p.lo[q] = 0; }
    LayoutOpt reg({REG, CHUNK, IRREG}), all({REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR}), wreg({REG, REG, CHUNK, IRREG, RESTR, RESTRRANGE, GHOST});
    std::vector<Op *> ops = {&A, &B, &C};
    bool same = gr.one_in(2);
    for (Op *o : ops) {
      bool anyb = blk && (api >= 2 || o == &C);
      o->L = rnd_layout(gr, o->dims, g.size(), anyb ? all : same ? LayoutOpt({REG}) : g.world ? wreg : reg);
      o->m = MArr(type, o->dims);
    }
    std::string K = bc(C.L) || (api >= 2 && (bc(A.L) || bc(B.L))) ? ":bc" : "";
    begin_case(i, fmt("%s %s api=%d m=%ld n=%ld k=%ld %c%c | A %s %s %s | B %s %s %s | C %s %s %s", g.desc.c_str(), tname(type), api, m, n, k, ta ? 't' : 'n', tb ? 't' : 'n',
                      dimstr(A.dims).c_str(), A.p.str().c_str(), A.L.str().c_str(), dimstr(B.dims).c_str(), B.p.str().c_str(), B.L.str().c_str(), dimstr(C.dims).c_str(), C.p.str().c_str(), C.L.str().c_str()));
    opmark("create");
    for (Op *o : ops) o->h = make_array(o->L, type, o->dims, g, "mm");
    refill(A.h, A.m, gr, g); refill(B.h, B.m, gr, g); refill(C.h, C.m, gr, g);
    for (int e = 0, E = big ? 1 : (int)gr.in(1, 3); e < E; e++) {
      Val al = scal(type, gr), be = scal(type, gr);
      bool zero = be.re == 0 && be.im == 0;
      if (gr.one_in(3)) refill(A.h, A.m, gr, g);
      MArr C0 = C.m;
      if (zero && gr.one_in(2)) { // C need not hold numbers when beta is zero
        for (long a = 0; a < m; a++) for (long b = 0; b < n; b++) { Val v; v.re = NAN; v.im = is_cpl(type) ? NAN : 0; C0.set(C.lin(a, b), v); }
        upload(C.h, C0, g);
        count("nan_beta_zero");
      }
      // the sequential product
      bool cx = is_cpl(type);
      std::vector<double> ar(m * k), ai(cx ? m * k : 0), br(k * n), bi(cx ? k * n : 0);
      for (long a = 0; a < m; a++) for (long q = 0; q < k; q++) { Val v = A.m.get(ta ? A.lin(q, a) : A.lin(a, q)); ar[a * k + q] = v.re; if (cx) ai[a * k + q] = v.im; }
      for (long q = 0; q < k; q++) for (long b = 0; b < n; b++) { Val v = B.m.get(tb ? B.lin(b, q) : B.lin(q, b)); br[q * n + b] = v.re; if (cx) bi[q * n + b] = v.im; }
      for (long a = 0; a < m; a++) {
        std::vector<double> sr(n, 0), si(n, 0);
        for (long q = 0; q < k; q++) {
          double x = ar[a * k + q], y = cx ? ai[a * k + q] : 0;
          for (long b = 0; b < n; b++) {
            sr[b] += x * br[q * n + b];
            if (cx) { sr[b] -= y * bi[q * n + b]; si[b] += x * bi[q * n + b] + y * br[q * n + b]; }
          }
        }
        for (long b = 0; b < n; b++) {
          Val s; s.re = sr[b]; s.im = si[b];
          long l = C.lin(a, b);
          C.m.set(l, vadd(type, vmul(type, al, s), vmul(type, be, C.m.get(l))));
        }
      }
      char fa = ta ? gr.one_in(2) ? 'T' : 't' : gr.one_in(2) ? 'N' : 'n', fb = tb ? gr.one_in(2) ? 'T' : 't' : gr.one_in(2) ? 'N' : 'n';
      char alb[16], beb[16];
      store(type, alb, al); store(type, beb, be);
      bool w = gr.one_in(2), mk = gr.one_in(4);
      if (mk) { gsync(g); GA_Mask_sync(gr.one_in(2), gr.one_in(2)); }
      const char *name = api == 0 ? "gemm" : api == 1 ? "matmul_patch" : api == 2 ? "nga_matmul_patch" : "nga_matmul_patch_alt";
      opmark("%s%s", name, K.c_str());
      int im = (int)m, in = (int)n, ik = (int)k;
      if (api == 0) {
        DoubleComplex za, zb; SingleComplex ca, cb;
        za.real = al.re; za.imag = al.im; zb.real = be.re; zb.imag = be.im; ca.real = (float)al.re; ca.imag = (float)al.im; cb.real = (float)be.re; cb.imag = (float)be.im;
        if (type == C_DBL) { if (w) GA_Dgemm64(fa, fb, m, n, k, al.re, A.h, B.h, be.re, C.h); else GA_Dgemm(fa, fb, im, in, ik, al.re, A.h, B.h, be.re, C.h); }
        else if (type == C_FLOAT) { if (w) GA_Sgemm64(fa, fb, m, n, k, (float)al.re, A.h, B.h, (float)be.re, C.h); else GA_Sgemm(fa, fb, im, in, ik, (float)al.re, A.h, B.h, (float)be.re, C.h); }
        else if (type == C_DCPL) { if (w) GA_Zgemm64(fa, fb, m, n, k, za, A.h, B.h, zb, C.h); else GA_Zgemm(fa, fb, im, in, ik, za, A.h, B.h, zb, C.h); }
        else { if (w) GA_Cgemm64(fa, fb, m, n, k, ca, A.h, B.h, cb, C.h); else GA_Cgemm(fa, fb, im, in, ik, ca, A.h, B.h, cb, C.h); }
      } else if (api == 1) {
        // column-major convention: the product of the transposed matrices, Ct = op(B)t * op(A)t; indices after op()
        auto f = [&](Op &o, bool t, long *x) { int a = t ? 0 : 1, b = t ? 1 : 0; x[0] = o.p.lo[a]; x[1] = o.p.hi[a]; x[2] = o.p.lo[b]; x[3] = o.p.hi[b]; };
        long a[4], b[4], c[4];
        f(A, ta, a); f(B, tb, b); f(C, false, c);
        if (w) GA_Matmul_patch64(fb, fa, alb, beb, B.h, b[0], b[1], b[2], b[3], A.h, a[0], a[1], a[2], a[3], C.h, c[0], c[1], c[2], c[3]);
        else GA_Matmul_patch(fb, fa, alb, beb, B.h, (int)b[0], (int)b[1], (int)b[2], (int)b[3], A.h, (int)a[0], (int)a[1], (int)a[2], (int)a[3], C.h, (int)c[0], (int)c[1], (int)c[2], (int)c[3]);
      } else {
        Patch pa = A.p, pb = B.p, pc = C.p;
        if (api == 2) { // indices after op()
          if (ta) { std::swap(pa.lo[A.d0], pa.lo[A.d1]); std::swap(pa.hi[A.d0], pa.hi[A.d1]); }
          if (tb) { std::swap(pb.lo[B.d0], pb.lo[B.d1]); std::swap(pb.hi[B.d0], pb.hi[B.d1]); }
        }
        Dims al_(pa.lo), ah(pa.hi), bl(pb.lo), bh(pb.hi), cl(pc.lo), ch(pc.hi);
        auto go = [&](auto f32, auto f64) {
          if (w) f64(fa, fb, alb, beb, A.h, al_.l, ah.l, B.h, bl.l, bh.l, C.h, cl.l, ch.l);
          else f32(fa, fb, alb, beb, A.h, al_.i, ah.i, B.h, bl.i, bh.i, C.h, cl.i, ch.i);
        };
        if (api == 2) go(NGA_Matmul_patch, NGA_Matmul_patch64); else go(NGA_Matmul_patch_alt, NGA_Matmul_patch_alt64);
      }
      gsync(g);
      std::string key = std::string(name) + K, what = fmt("%s alpha=%s beta=%s", name, vstr(type, al).c_str(), vstr(type, be).c_str());
      check_num(C.h, C.m, key, what.c_str());
      check_num(A.h, A.m, key + ":operand", what.c_str());
      check_num(B.h, B.m, key + ":operand", what.c_str());
      gsync(g);
      count(name); if (ta || tb) count("transposed"); if (!K.empty()) count("blockcyclic"); if (big) count("big");
      if (!g.world) count("groups");
      refill(C.h, C.m, gr, g);
    }
    opmark("destroy");
    for (Op *o : ops) GA_Destroy(o->h);
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
