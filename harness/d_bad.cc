// C24: invalid arguments are refused and leave every array and buffer as it was.
// The library's error exit is intercepted (trap.h); after it all arrays are compared with the model.
#include "gamon.h"
#include "trap.h"
#include <pthread.h>
using namespace gm;
extern "C" pthread_mutex_t ga_threadsafe_lock;


static const long BIG = 1 << 17;
static std::vector<char> big;
static bool lenient = false;
static bool soft; // the call said no through its result
static void canary() { for (long i = 0; i < BIG; i++) big[i] = (char)(0x30 + i % 61); }
static void canary_ok(const std::string &k) {
  for (long i = 0; i < BIG; i++) if (big[i] != (char)(0x30 + i % 61)) violation("buffer-changed:" + k, "a refused call wrote the caller's buffer at byte %ld", i);
}
static Patch bad_patch(Rng &r, const VL &dims, std::string &how) {
  Patch p = rnd_patch(r, dims);
  int k = (int)r.in(0, (int)dims.size() - 1);
  long off = r.one_in(2) ? 1 : r.one_in(4) ? 1L << 28 : r.in(1, 2 * dims[k]);
  switch (r.in(0, 3)) {
  case 0: p.lo[k] = -off; how = "lo<0"; break;
  case 1: p.hi[k] = dims[k] - 1 + off; how = "hi>dim"; break;
  case 2: p.lo[k] = dims[k] - 1 + off; p.hi[k] = p.lo[k] + r.in(0, 2); how = "beyond"; break;
  default: if (p.lo[k] == p.hi[k]) { p.hi[k] = dims[k]; how = "hi=dim"; } else { std::swap(p.lo[k], p.hi[k]); how = "lo>hi"; } break;
  }
  return p;
}
static VL bad_sub(Rng &r, const VL &dims) {
  VL s;
  for (long d : dims) s.push_back(r.in(0, d - 1));
  int k = (int)r.in(0, (int)dims.size() - 1);
  long off = r.one_in(2) ? 1 : r.in(1, 2 * dims[k]);
  s[k] = r.one_in(2) ? -off : dims[k] - 1 + off;
  return s;
}
static VL good_sub(Rng &r, const VL &dims) { VL s; for (long d : dims) s.push_back(r.in(0, d - 1)); return s; }

template <class F> static void must_refuse(const std::string &key, const std::string &detail, F f) {
  opmark("%s", key.c_str());
  canary();
  soft = false;
  bool ref = trap::refused(f);
  if (ref) { pthread_mutex_trylock(&ga_threadsafe_lock); pthread_mutex_unlock(&ga_threadsafe_lock); } // held by the call left behind
  if (!ref && !soft && !(lenient && key.find(":lo>hi") != key.npos)) violation("accepted:" + key, "%s was accepted without an error", detail.c_str());
  canary_ok(key);
  count("refused");
  count("refused_" + key.substr(0, key.find(':')));
}

static void *one_of(int t) {
  static double d[2]; static float f[2]; static int i; static long l; static long long ll;
  switch (t) {
  case C_INT: i = 1; return &i;
  case C_LONG: l = 1; return &l;
  case C_LONGLONG: ll = 1; return &ll;
  case C_FLOAT: f[0] = 1; return f;
  case C_SCPL: f[0] = 1; f[1] = 0; return f;
  default: d[0] = 1; d[1] = 0; return d;
  }
}

// ---- one-sided calls: any process, on its own -----------------------------------------------------
static void onesided(Rng &r, int h, int dead, const MArr &m) {
  int nd = m.nd();
  std::string how;
  bool deadh = r.one_in(5);
  Patch p = deadh ? rnd_patch(r, m.dims) : bad_patch(r, m.dims, how);
  int H = h;
  if (deadh) {
    static const int off[] = {0, 0, 1, 2};
    int w = off[r.in(0, 3)];
    H = w == 0 ? dead : w == 1 ? -(int)r.in(1, 100000) : (int)r.in(20000, 1 << 29);
    how = w == 0 ? "destroyed handle" : "wild handle";
  }
  std::string D = fmt("%s %s handle %d", how.c_str(), p.str().c_str(), H);
  how = ":" + how;
  Dims lo(p.lo), hi(p.hi);
  VL ldv;
  for (int k = 1; k < nd; k++) ldv.push_back(m.dims[k] + 3);
  if (ldv.empty()) ldv.push_back(1);
  Dims ld(ldv);
  bool w = r.one_in(2);
  void *al = one_of(m.type);
  ga_nbhdl_t nb;
  int op = (int)r.in(0, 15);
  if (op >= 9 && op <= 11 && deadh) op = 8;
  switch (op) {
  case 0: must_refuse("put" + how, D, [&] { if (w) NGA_Put64(H, lo.l, hi.l, big.data(), ld.l); else NGA_Put(H, lo.i, hi.i, big.data(), ld.i); }); break;
  case 1: must_refuse("get" + how, D, [&] { if (w) NGA_Get64(H, lo.l, hi.l, big.data(), ld.l); else NGA_Get(H, lo.i, hi.i, big.data(), ld.i); }); break;
  case 2: must_refuse("acc" + how, D, [&] { if (w) NGA_Acc64(H, lo.l, hi.l, big.data(), ld.l, al); else NGA_Acc(H, lo.i, hi.i, big.data(), ld.i, al); }); break;
  case 3: must_refuse("nbput" + how, D, [&] { if (w) NGA_NbPut64(H, lo.l, hi.l, big.data(), ld.l, &nb); else NGA_NbPut(H, lo.i, hi.i, big.data(), ld.i, &nb); }); break;
  case 4: must_refuse("nbget" + how, D, [&] { if (w) NGA_NbGet64(H, lo.l, hi.l, big.data(), ld.l, &nb); else NGA_NbGet(H, lo.i, hi.i, big.data(), ld.i, &nb); }); break;
  case 5: must_refuse("nbacc" + how, D, [&] { if (w) NGA_NbAcc64(H, lo.l, hi.l, big.data(), ld.l, al, &nb); else NGA_NbAcc(H, lo.i, hi.i, big.data(), ld.i, al, &nb); }); break;
  case 6: case 7: {
    VL sk(nd);
    for (auto &x : sk) x = r.in(1, 3);
    std::string hw = how;
    if (!deadh && r.one_in(3)) { p = rnd_patch(r, m.dims); lo = Dims(p.lo); hi = Dims(p.hi); sk[r.in(0, nd - 1)] = r.in(-2, 0); hw = ":skip<1"; }
    Dims s(sk);
    int o = (int)r.in(0, 2);
    must_refuse((o == 0 ? "strided_put" : o == 1 ? "strided_get" : "strided_acc") + hw, D + " skip " + dimstr(sk), [&] {
      if (o == 0) { if (w) NGA_Strided_put64(H, lo.l, hi.l, s.l, big.data(), ld.l); else NGA_Strided_put(H, lo.i, hi.i, s.i, big.data(), ld.i); }
      else if (o == 1) { if (w) NGA_Strided_get64(H, lo.l, hi.l, s.l, big.data(), ld.l); else NGA_Strided_get(H, lo.i, hi.i, s.i, big.data(), ld.i); }
      else { if (w) NGA_Strided_acc64(H, lo.l, hi.l, s.l, big.data(), ld.l, al); else NGA_Strided_acc(H, lo.i, hi.i, s.i, big.data(), ld.i, al); }
    });
    break;
  }
  case 8: case 9: case 10: case 11: case 12: { // element lists with one bad subscript
    int n = (int)r.in(1, 20), bad = (int)r.in(0, n - 1);
    std::vector<VL> ss;
    for (int k = 0; k < n; k++) ss.push_back(k == bad && !deadh ? bad_sub(r, m.dims) : good_sub(r, m.dims));
    std::vector<int> fi; std::vector<int64_t> fl; std::vector<int *> pi; std::vector<int64_t *> pl;
    for (auto &s : ss) for (long x : s) { fi.push_back((int)x); fl.push_back(x); }
    for (int k = 0; k < n; k++) { pi.push_back(fi.data() + k * nd); pl.push_back(fl.data() + k * nd); }
    bool flat = r.one_in(2);
    int o = (int)r.in(0, 2);
    std::string D2 = fmt("element %d of %d: ", bad, n);
    for (long x : ss[bad]) D2 += fmt("%ld,", x);
    must_refuse((o == 0 ? "scatter" : o == 1 ? "gather" : "scatter_acc") + (deadh ? how : std::string(":subscript")), D2, [&] {
      if (o == 0) { if (flat) { if (w) NGA_Scatter_flat64(H, big.data(), fl.data(), n); else NGA_Scatter_flat(H, big.data(), fi.data(), n); }
                    else { if (w) NGA_Scatter64(H, big.data(), pl.data(), n); else NGA_Scatter(H, big.data(), pi.data(), n); } }
      else if (o == 1) { if (flat) { if (w) NGA_Gather_flat64(H, big.data(), fl.data(), n); else NGA_Gather_flat(H, big.data(), fi.data(), n); }
                         else { if (w) NGA_Gather64(H, big.data(), pl.data(), n); else NGA_Gather(H, big.data(), pi.data(), n); } }
      else { if (flat) { if (w) NGA_Scatter_acc_flat64(H, big.data(), fl.data(), n, al); else NGA_Scatter_acc_flat(H, big.data(), fi.data(), n, al); }
             else { if (w) NGA_Scatter_acc64(H, big.data(), pl.data(), n, al); else NGA_Scatter_acc(H, big.data(), pi.data(), n, al); } }
    });
    break;
  }
  case 13: {
    bool it = is_int(m.type);
    VL s = it && !deadh ? bad_sub(r, m.dims) : good_sub(r, m.dims);
    Dims d(s);
    must_refuse("read_inc" + (deadh ? how : std::string(it ? ":subscript" : ":type")), fmt("subscript %s type %s", dimstr(s).c_str(), tname(m.type)), [&] { if (w) NGA_Read_inc64(H, d.l, 1); else NGA_Read_inc(H, d.i, 1); });
    break;
  }
  case 14: {
    void *ptr = nullptr;
    must_refuse("access" + how, D, [&] { if (w) NGA_Access64(H, lo.l, hi.l, &ptr, ld.l); else NGA_Access(H, lo.i, hi.i, &ptr, ld.i); });
    break;
  }
  default: {
    if (deadh) {
      int t, n2, dd[8];
      int64_t dl[8];
      int o = (int)r.in(0, 6);
      static const char *q[] = {"inquire", "distribution", "locate", "ndim", "nblock", "locate_region", "proc_topology"};
      must_refuse(q[o] + how, D, [&] {
        std::vector<int> mp(2 * 8 * 64), pr(64);
        if (o == 0) { if (w) NGA_Inquire64(H, &t, &n2, dl); else NGA_Inquire(H, &t, &n2, dd); }
        else if (o == 1) NGA_Distribution(H, 0, dd, dd);
        else if (o == 2) { if (w) NGA_Locate64(H, lo.l); else NGA_Locate(H, lo.i); }
        else if (o == 3) GA_Ndim(H);
        else if (o == 4) GA_Nblock(H, dd);
        else if (o == 5) NGA_Locate_region(H, lo.i, hi.i, mp.data(), pr.data());
        else NGA_Proc_topology(H, 0, dd);
      });
      break;
    }
    // queries that answer "nowhere" instead of failing
    VL s = bad_sub(r, m.dims);
    Dims d(s);
    opmark("locate bad");
    int o = w ? NGA_Locate64(h, d.l) : NGA_Locate(h, d.i);
    if (o >= 0) violation("locate:accepted", "Locate of %s in %s answered process %d", dimstr(s).c_str(), dimstr(m.dims).c_str(), o);
    std::vector<int> mp(2 * nd * 4 * np + 64 * 64, -7), pr(4 * np + 4096, -7);
    opmark("locate_region bad");
    int n = NGA_Locate_region(h, lo.i, hi.i, mp.data(), pr.data());
    if (n > 0) violation("locate_region:accepted", "Locate_region of %s in %s answered %d pieces", p.str().c_str(), dimstr(m.dims).c_str(), n);
    opmark("locate_nnodes bad");
    n = NGA_Locate_nnodes(h, lo.i, hi.i);
    if (n > 0) violation("locate_nnodes:accepted", "Locate_nnodes of %s in %s answered %d", p.str().c_str(), dimstr(m.dims).c_str(), n);
    count("bad_queries", 3);
  }
  }
}

// ---- collective calls: all processes together ------------------------------------------------------
static bool ew(int t) { return t != C_LONGLONG; }
struct Env { int type; VL dims; int a, b, c, dead, other, shape, cube, vec; int t2; VL sdims; bool bc; };

static void collective(Rng &r, Env &e) {
  std::string how;
  int t = e.type;
  Patch p = bad_patch(r, e.dims, how), q = rnd_patch(r, e.dims);
  Dims lo(p.lo), hi(p.hi), ql(q.lo), qh(q.hi);
  std::string D = fmt("%s %s", how.c_str(), p.str().c_str());
  bool w = r.one_in(2);
  void *al = one_of(t);
  double sc[2] = {1, 0}, res[2];
  long n0 = e.dims[0], n1 = e.dims[1];
  // a second patch with another number of elements
  Patch q2 = q;
  if (q2.hi[0] < n0 - 1) q2.hi[0]++; else if (q2.lo[0] > 0) q2.lo[0]--; else if (q2.hi[0] > q2.lo[0]) q2.hi[0]--; else if (q2.hi[1] < n1 - 1) q2.hi[1]++; else if (q2.lo[1] > 0) q2.lo[1]--; else if (q2.hi[1] > q2.lo[1]) q2.hi[1]--;
  bool differ = q2.size() != q.size();
  Dims q2l(q2.lo), q2h(q2.hi);
  int which = (int)r.in(0, 2); // which operand carries the bad patch
  lenient = how == "lo>hi"; // an empty patch may also be taken as nothing to do
  how = ":" + how;
  auto L = [&](int k) { return k == which ? lo.i : ql.i; };
  auto Hh = [&](int k) { return k == which ? hi.i : qh.i; };
  switch (r.in(0, 39)) {
  case 0: must_refuse("fill_patch" + how, D, [&] { if (w) NGA_Fill_patch64(e.a, lo.l, hi.l, al); else NGA_Fill_patch(e.a, lo.i, hi.i, al); }); break;
  case 1: if (t == C_LONGLONG) break; must_refuse("scale_patch" + how, D, [&] { if (w) NGA_Scale_patch64(e.a, lo.l, hi.l, al); else NGA_Scale_patch(e.a, lo.i, hi.i, al); }); break;
  case 2: must_refuse("zero_patch" + how, D, [&] { if (w) NGA_Zero_patch64(e.a, lo.l, hi.l); else NGA_Zero_patch(e.a, lo.i, hi.i); }); break;
  case 3: if (!ew(t)) break; must_refuse("add_patch" + how, D + fmt(" operand %d", which), [&] { NGA_Add_patch(al, e.a, L(0), Hh(0), al, e.b, L(1), Hh(1), e.c, L(2), Hh(2)); }); break;
  case 4: if (!ew(t) || !differ) break; must_refuse("add_patch:size", q.str() + " vs " + q2.str(), [&] { NGA_Add_patch(al, e.a, ql.i, qh.i, al, e.b, ql.i, qh.i, e.c, q2l.i, q2h.i); }); break;
  case 5: must_refuse("copy_patch" + how, D, [&] { NGA_Copy_patch('n', e.a, which ? lo.i : ql.i, which ? hi.i : qh.i, e.b, which ? ql.i : lo.i, which ? qh.i : hi.i); }); break;
  case 6: if (!differ) break; must_refuse("copy_patch:size", q.str() + " vs " + q2.str(), [&] { NGA_Copy_patch('n', e.a, ql.i, qh.i, e.b, q2l.i, q2h.i); }); break;
  case 7: must_refuse("copy_patch:type", tname(e.t2), [&] { NGA_Copy_patch('n', e.a, ql.i, qh.i, e.other, ql.i, qh.i); }); break;
  case 8: must_refuse("copy:type", tname(e.t2), [&] { GA_Copy(e.a, e.other); }); break;
  case 9: must_refuse("copy:dims", dimstr(e.sdims), [&] { GA_Copy(w ? e.a : e.shape, w ? e.shape : e.a); }); break;
  case 10: must_refuse("copy:same", "array onto itself", [&] { GA_Copy(e.a, e.a); }); break;
  case 11: if (!ew(t)) break; must_refuse("add:type", tname(e.t2), [&] { if (which == 0) GA_Add(al, e.other, al, e.b, e.c); else if (which == 1) GA_Add(al, e.a, al, e.other, e.c); else GA_Add(al, e.a, al, e.b, e.other); }); break;
  case 12: if (!ew(t)) break; must_refuse("add:dims", dimstr(e.sdims), [&] { if (which == 0) GA_Add(al, e.shape, al, e.b, e.c); else if (which == 1) GA_Add(al, e.a, al, e.shape, e.c); else GA_Add(al, e.a, al, e.b, e.shape); }); break;
  case 13: if (t != C_DBL) break; must_refuse("dot:type", tname(e.t2), [&] { if (w) GA_Ddot(e.a, e.other); else GA_Ddot(e.other, e.a); }); break;
  case 14: if (t != C_DBL) break; must_refuse("dot:dims", dimstr(e.sdims), [&] { if (w) GA_Ddot(e.a, e.shape); else GA_Ddot(e.shape, e.a); }); break;
  case 15: if (t != C_DBL) break; must_refuse("dot_patch" + how, D, [&] { res[0] = NGA_Ddot_patch(e.a, 'n', which ? lo.i : ql.i, which ? hi.i : qh.i, e.b, 'n', which ? ql.i : lo.i, which ? qh.i : hi.i); }); break;
  case 16: if (t != C_DBL || !differ) break; must_refuse("dot_patch:size", q.str() + " vs " + q2.str(), [&] { NGA_Ddot_patch(e.a, 'n', ql.i, qh.i, e.b, 'n', q2l.i, q2h.i); }); break;
  case 17: must_refuse("transpose:type", tname(e.t2), [&] { GA_Transpose(e.a, e.other); }); break;
  case 18: must_refuse("transpose:rank", "three dimensions", [&] { if (w) GA_Transpose(e.cube, e.a); else GA_Transpose(e.a, e.cube); }); break;
  case 19: must_refuse("transpose:same", "array onto itself", [&] { GA_Transpose(e.a, e.a); }); break;
  case 20: if (t == C_INT || t == C_LONG || t == C_LONGLONG || n0 != n1) break; { // square: any patch out of range
    must_refuse("matmul_patch" + how, D, [&] {
      Patch f = whole(e.dims);
      Dims fl(f.lo), fh(f.hi);
      NGA_Matmul_patch('n', 'n', sc, sc, e.a, which == 0 ? lo.i : fl.i, which == 0 ? hi.i : fh.i, e.b, which == 1 ? lo.i : fl.i, which == 1 ? hi.i : fh.i, e.c, which == 2 ? lo.i : fl.i, which == 2 ? hi.i : fh.i);
    });
    break;
  }
  case 21: if (t != C_DBL || n0 != n1) break; must_refuse("dgemm:type", tname(e.t2), [&] { if (which == 0) GA_Dgemm('n', 'n', (int)n0, (int)n0, (int)n0, 1.0, e.other, e.b, 0.0, e.c); else if (which == 1) GA_Dgemm('n', 'n', (int)n0, (int)n0, (int)n0, 1.0, e.a, e.other, 0.0, e.c); else GA_Dgemm('n', 'n', (int)n0, (int)n0, (int)n0, 1.0, e.a, e.b, 0.0, e.other); }); break;
  case 22: if (t != C_DBL || n0 != n1) break; must_refuse("dgemm:size", "m+1", [&] { GA_Dgemm('n', 'n', (int)n0 + (which == 0), (int)n0 + (which == 1), (int)n0 + (which == 2), 1.0, e.a, e.b, 0.0, e.c); }); break;
  case 23: if (t != C_DBL || n0 != n1 || e.bc) break; { // three dimensions where a matrix is wanted
    double ev[64];
    int o = (int)r.in(0, 3), k = o == 1 || o == 2 ? 0 : (int)r.in(0, 1);
    static const char *nm[] = {"lu_solve:rank", "diag_seq:rank", "diag_std_seq:rank", "dgemm:rank"};
    int A = k == 0 ? e.cube : e.a, B = k == 1 ? e.cube : e.b;
    must_refuse(nm[o], fmt("operand %d", k), [&] {
      if (o == 0) GA_Lu_solve('n', A, B); else if (o == 1) GA_Diag_seq(A, B, e.c, ev); else if (o == 2) GA_Diag_std_seq(A, B, ev);
      else GA_Dgemm('n', 'n', (int)n0, (int)n0, (int)n0, 1.0, A, B, 0.0, e.c);
    });
    break;
  }
  case 24: if (!ew(t)) break; { // vector operands: wrong rank, type or length
    int o = (int)r.in(0, 4), k = (int)r.in(0, 2);
    static const char *nm[] = {"get_diag", "set_diagonal", "add_diagonal", "scale_rows", "scale_cols"};
    static const char *kn[] = {":rank-matrix", ":rank-vector", ":type"};
    int A = k == 0 ? e.cube : e.a, V = k == 1 ? e.b : k == 2 ? e.other : e.vec;
    if (k == 2) V = -1;
    if (V == -1) { // a vector of another type and the right length
      long len = o == 3 ? n0 : o == 4 ? n1 : std::min(n0, n1);
      int d1 = (int)len;
      V = NGA_Create(e.t2, 1, &d1, (char *)"tv", NULL);
      GA_Zero(V);
    }
    must_refuse(std::string(nm[o]) + kn[k], "vector operand", [&] {
      if (o == 0) GA_Get_diag(A, V); else if (o == 1) GA_Set_diagonal(A, V); else if (o == 2) GA_Add_diagonal(A, V); else if (o == 3) GA_Scale_rows(A, V); else GA_Scale_cols(A, V);
    });
    GA_Sync();
    if (k == 2) GA_Destroy(V);
    break;
  }
  case 25: if (!ew(t) || n0 == n1) break; { // a vector of the wrong length
    int o = (int)r.in(0, 4);
    static const char *nm[] = {"get_diag:length", "set_diagonal:length", "add_diagonal:length", "scale_rows:length", "scale_cols:length"};
    long len = o == 3 ? n0 : o == 4 ? n1 : std::min(n0, n1);
    int d1 = (int)std::max(1L, len - 1);
    if (d1 == len) break;
    int V = NGA_Create(t, 1, &d1, (char *)"tv", NULL);
    GA_Zero(V);
    must_refuse(nm[o], fmt("vector of %d for %ldx%ld", d1, n0, n1), [&] {
      if (o == 0) GA_Get_diag(e.a, V); else if (o == 1) GA_Set_diagonal(e.a, V); else if (o == 2) GA_Add_diagonal(e.a, V); else if (o == 3) GA_Scale_rows(e.a, V); else GA_Scale_cols(e.a, V);
    });
    GA_Sync();
    GA_Destroy(V);
    break;
  }
  case 26: if (t != C_DBL || n0 == n1) break; must_refuse("symmetrize:shape", dimstr(e.dims), [&] { GA_Symmetrize(e.a); }); break;
  case 27: if (t != C_DBL) break; {
    double ev[64];
    bool sq = n0 == n1;
    if (sq) break;
    int o = (int)r.in(0, 2);
    must_refuse(o == 0 ? "lu_solve:shape" : o == 1 ? "diag_seq:shape" : "diag_std_seq:shape", dimstr(e.dims), [&] { if (o == 0) GA_Lu_solve('n', e.a, e.b); else if (o == 1) GA_Diag_seq(e.a, e.b, e.c, ev); else GA_Diag_std_seq(e.a, e.c, ev); });
    break;
  }
  case 28: { // reductions with an operator that does not exist
    double x[4] = {1, 2, 3, 4};
    int ix[4] = {1, 2, 3, 4};
    static const char *ops[] = {"-", "plus", "", "foo", "!"};
    const char *o = ops[r.in(0, 4)];
    must_refuse("gop:operator", std::string("'") + o + "'", [&] { if (w) GA_Dgop(x, 4, (char *)o); else GA_Igop(ix, 4, (char *)o); });
    break;
  }
  case 29: {
    int d[8] = {3, 3, 3, 3, 3, 3, 3, 3}, k = (int)r.in(0, 3), nd = 2, ty = t;
    if (k == 0) nd = 0;
    if (k == 1) nd = 8;
    if (k == 2) d[r.in(0, 1)] = (int)r.in(-3, 0);
    if (k == 3) ty = (int)r.in(0, 1) ? 99999 : -5;
    static const char *kn[] = {"create:ndim0", "create:ndim8", "create:dim<1", "create:type"};
    must_refuse(kn[k], fmt("ndim %d dims %d,%d type %d", nd, d[0], d[1], ty), [&] { if (!NGA_Create(ty, nd, d, (char *)"bad", NULL)) soft = true; });
    e.dead = 15000; // the abandoned creation may hold the handle that was destroyed
    break;
  }
  case 30: {
    std::vector<int> l;
    for (int k = 0; k < np; k++) l.push_back(k);
    if (w) l.push_back((int)r.in(0, np - 1)); else l[r.in(0, np - 1)] = r.one_in(2) ? np + (int)r.in(0, 3) : -(int)r.in(1, 3);
    must_refuse(w ? "group:duplicate" : "group:member", "member list", [&] { GA_Pgroup_create(l.data(), (int)l.size()); });
    break;
  }
  case 31: { // calls on a destroyed array
    int o = (int)r.in(0, 9);
    static const char *nm[] = {"fill", "zero", "scale", "copy-from", "copy-to", "duplicate", "transpose", "copy_patch", "fill_patch", "zero_patch"};
    must_refuse(std::string(nm[o]) + ":destroyed handle", fmt("handle %d", e.dead), [&] {
      switch (o) {
      case 0: GA_Fill(e.dead, al); break;
      case 1: GA_Zero(e.dead); break;
      case 2: GA_Scale(e.dead, al); break;
      case 3: GA_Copy(e.dead, e.a); break;
      case 4: GA_Copy(e.a, e.dead); break;
      case 5: GA_Duplicate(e.dead, (char *)"x"); break;
      case 6: GA_Transpose(e.dead, e.a); break;
      case 7: NGA_Copy_patch('n', e.dead, ql.i, qh.i, e.a, ql.i, qh.i); break;
      case 8: NGA_Fill_patch(e.dead, ql.i, qh.i, al); break;
      default: NGA_Zero_patch(e.dead, ql.i, qh.i); break;
      }
    });
    break;
  }
  case 32: {
    must_refuse("destroy:destroyed handle", fmt("handle %d", e.dead), [&] { GA_Destroy(e.dead); });
    break;
  }
  case 33: if (is_cpl(t) && false) break; {
    int ix[8];
    double v[2];
    static const char *ops[] = {"avg", "", "x"};
    const char *o = ops[r.in(0, 2)];
    if (t == C_LONGLONG) break;
    must_refuse("select_elem:operator", o, [&] { NGA_Select_elem(e.a, (char *)o, v, ix); });
    break;
  }
  case 34: {
    int d[2] = {4, 4}, b[2] = {2, 2};
    must_refuse(w ? "set_data:allocated" : "set_chunk:allocated", "array in use", [&] { if (w) NGA_Set_data(e.a, 2, d, t); else GA_Set_chunk(e.a, b); });
    break;
  }
  case 35: if (is_int(t)) break; {
    double nv;
    must_refuse(w ? "norm1:rank" : "norm_infinity:rank", "three dimensions", [&] { if (w) GA_Norm1(e.cube, &nv); else GA_Norm_infinity(e.cube, &nv); });
    break;
  }
  case 38: if (!ew(t) || e.bc) break; { // element-wise operations on mismatched operands
    int o = (int)r.in(0, 4);
    static const char *nm[] = {"elem_multiply", "elem_divide", "elem_maximum", "elem_minimum", "median"};
    int X = w ? e.other : e.shape;
    int a = which == 0 ? X : e.a, b = which == 1 ? X : e.b, c = which == 2 ? X : e.c;
    must_refuse(std::string(nm[o]) + (w ? ":type" : ":dims"), fmt("operand %d", which), [&] {
      if (o == 0) GA_Elem_multiply(a, b, c); else if (o == 1) GA_Elem_divide(a, b, c); else if (o == 2) GA_Elem_maximum(a, b, c);
      else if (o == 3) GA_Elem_minimum(a, b, c); else GA_Median(a, b, e.a, c);
    });
    break;
  }
  case 39: { // a group that arrays still use
    std::vector<int> l;
    for (int k = 0; k < np; k++) l.push_back(k);
    int G = GA_Pgroup_create(l.data(), np);
    if (w) {
      must_refuse("pgroup_destroy:handle", "no such group", [&] { if (!GA_Pgroup_destroy(r.one_in(2) ? G + 1 + (int)r.in(0, 50) : 40000)) soft = true; });
    } else {
      int d1[2] = {(int)n0, (int)n1};
      int X = NGA_Create_config(t, 2, d1, (char *)"on group", NULL, G);
      GA_Copy(e.a, X);
      must_refuse("pgroup_destroy:in use", "group with an array", [&] { GA_Pgroup_destroy(G); });
      opmark("array of the kept group");
      GA_Pgroup_sync(G);
      GA_Copy(X, e.a);
      GA_Pgroup_sync(G);
      GA_Destroy(X);
    }
    GA_Sync();
    if (!GA_Pgroup_destroy(G)) violation("pgroup_destroy:failed", "the group could not be destroyed afterwards");
    GA_Sync();
    break;
  }
  case 36: if (!ew(t) || e.bc) break; {
    int o = (int)r.in(0, 3);
    static const char *nm[] = {"elem_multiply_patch", "elem_divide_patch", "elem_maximum_patch", "abs_value_patch"};
    must_refuse(nm[o] + how, D, [&] {
      if (o == 0) GA_Elem_multiply_patch(e.a, L(0), Hh(0), e.b, L(1), Hh(1), e.c, L(2), Hh(2));
      else if (o == 1) GA_Elem_divide_patch(e.a, L(0), Hh(0), e.b, L(1), Hh(1), e.c, L(2), Hh(2));
      else if (o == 2) GA_Elem_maximum_patch(e.a, L(0), Hh(0), e.b, L(1), Hh(1), e.c, L(2), Hh(2));
      else GA_Abs_value_patch(e.a, lo.i, hi.i);
    });
    break;
  }
  default: {
    if (np == 1) break;
    int o = (int)r.in(0, 3);
    opmark("mutexes");
    if (GA_Create_mutexes(0)) violation("create_mutexes:zero", "Create_mutexes(0) succeeded");
    int nm = (int)r.in(1, 5);
    if (!GA_Create_mutexes(nm)) harness_error("create mutexes");
    int bad = r.one_in(2) ? nm + (int)r.in(0, 3) : -1;
    if (o == 0) must_refuse("lock:number", fmt("%d of %d", bad, nm), [&] { GA_Lock(bad); });
    else if (o == 1) must_refuse("unlock:number", fmt("%d of %d", bad, nm), [&] { GA_Unlock(bad); });
    else if (o == 2) must_refuse("create_mutexes:twice", "second set", [&] { GA_Create_mutexes(nm); });
    GA_Sync();
    if (!GA_Destroy_mutexes()) harness_error("destroy mutexes");
    if (o == 3) must_refuse("destroy_mutexes:none", "no mutexes", [&] { GA_Destroy_mutexes(); });
    if (o == 3) must_refuse("lock:none", "no mutexes", [&] { GA_Lock(0); });
  }
  }
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Group g = world_group();
  static const std::vector<int> types = {C_INT, C_LONG, C_DBL, C_DBL, C_DBL, C_FLOAT, C_SCPL, C_DCPL, C_LONGLONG};
  int type = r.pick(types);
  Env e;
  e.type = type;
  bool coll = r.one_in(2);
  int nd = coll ? 2 : rnd_nd(r);
  e.dims = rnd_dims(r, nd, 600);
  if (coll && r.one_in(2)) e.dims[1] = e.dims[0];
  LayoutOpt lo;
  if (coll) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(r, e.dims, g.size(), lo);
  e.bc = L.kind == BCYC || L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR;
  begin_case(i, fmt("%s %s dims=%s %s", coll ? "collective" : "one-sided", tname(type), dimstr(e.dims).c_str(), L.str().c_str()));
  opmark("create");
  MArr A(type, e.dims);
  e.a = make_array(L, type, e.dims, g, "a");
  e.dead = make_array(L, type, e.dims, g, "dead");
  fill_random(e.a, A, r, g, 20);
  if (!coll) {
    GA_Destroy(e.dead);
    GA_Sync();
    Rng lr(sub_seed(i, 5000 + me));
    int n = (int)lr.in(2, 12);
    for (int k = 0; k < n; k++) onesided(lr, e.a, e.dead, A);
    GA_Sync();
    check_all(e.a, A, "array-changed", "after refused one-sided calls");
    check_local(e.a, A, "array-changed:local");
    GA_Sync();
    // the library still works
    fill_random(e.a, A, r, g, 20);
    check_all(e.a, A, "not-working", "after refused calls");
  } else {
    MArr B(type, e.dims), C(type, e.dims);
    e.b = make_array(L, type, e.dims, g, "b");
    e.c = make_array(L, type, e.dims, g, "c");
    fill_random(e.b, B, r, g, 20);
    fill_random(e.c, C, r, g, 20);
    do e.t2 = r.pick(types); while (e.t2 == type);
    MArr O(e.t2, e.dims);
    Layout R0;
    e.other = make_array(R0, e.t2, e.dims, g, "other");
    fill_random(e.other, O, r, g, 20);
    e.sdims = e.dims;
    e.sdims[r.in(0, 1)] += r.in(1, 3);
    MArr S(type, e.sdims);
    e.shape = make_array(R0, type, e.sdims, g, "shape");
    fill_random(e.shape, S, r, g, 20);
    VL cd = {e.dims[0], e.dims[1], r.in(1, 3)};
    MArr Q(type, cd);
    e.cube = make_array(R0, type, cd, g, "cube");
    fill_random(e.cube, Q, r, g, 20);
    VL vd = {std::max(e.dims[0], e.dims[1])};
    MArr V(type, vd);
    e.vec = make_array(R0, type, vd, g, "vec");
    fill_random(e.vec, V, r, g, 20);
    GA_Destroy(e.dead);
    GA_Sync();
    int n = (int)r.in(3, 10);
    for (int k = 0; k < n; k++) {
      collective(r, e);
      GA_Sync();
      check_all(e.a, A, "array-changed", "A after a refused call");
      check_all(e.b, B, "array-changed", "B after a refused call");
      check_all(e.c, C, "array-changed", "C after a refused call");
      check_all(e.other, O, "array-changed", "array of another type after a refused call");
      check_all(e.shape, S, "array-changed", "array of another shape after a refused call");
      check_all(e.cube, Q, "array-changed", "array of another rank after a refused call");
      check_all(e.vec, V, "array-changed", "vector after a refused call");
      GA_Sync();
    }
    check_local(e.a, A, "array-changed:local");
    opmark("use after");
    GA_Copy(e.a, e.b);
    check_all(e.b, A, "not-working", "copy after refused calls");
    GA_Sync();
    for (int h : {e.b, e.c, e.other, e.shape, e.cube, e.vec}) GA_Destroy(h);
  }
  opmark("destroy");
  GA_Destroy(e.a);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  trap::install();
  big.resize(BIG);
  if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); }
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
