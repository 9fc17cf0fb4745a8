// C25: arrays of global pointers against a replicated model of (size, contents) per element.
#include "gamon.h"
extern "C" {
#include "gp.h"
}
using namespace gm;
typedef std::vector<unsigned char> Bytes;

struct Obj { bool set = false; Bytes b; };
struct Model {
  VL dims, stride;
  std::vector<Obj> o;
  Model(const VL &d) : dims(d), stride(d.size()) {
    long n = 1;
    for (int k = (int)d.size() - 1; k >= 0; k--) { stride[k] = n; n *= d[k]; }
    o.resize(n);
  }
  long ord(const VL &ix) const { long p = 0; for (size_t k = 0; k < ix.size(); k++) p += ix[k] * stride[k]; return p; }
  VL ix(long p) const { VL v; for (size_t k = 0; k < dims.size(); k++) { v.push_back(p / stride[k] % dims[k]); } return v; }
  Obj &at(const VL &i) { return o[ord(i)]; }
};
static Bytes content(uint64_t seed, long n) {
  Rng q(seed);
  Bytes b(n);
  for (long k = 0; k < n; k++) b[k] = (unsigned char)(q.next() >> 11);
  return b;
}
static long rnd_size(Rng &r) { return r.one_in(8) ? 0 : r.one_in(12) ? r.in(1000, 9000) : r.in(1, 60); }

// an int buffer with room for a block of leading dimensions, and canaries around it
template <class T> struct Frame {
  std::vector<T> v; VL ld; long n; T can;
  Frame(Rng &r, const VL &ext, T c) : can(c) {
    int nd = (int)ext.size();
    n = 1;
    for (int k = 1; k < nd; k++) ld.push_back(ext[k] + (r.one_in(2) ? r.in(0, 3) : 0));
    for (int k = 0; k < nd; k++) n *= k ? ld[k - 1] : ext[0];
    v.assign(n + 16, c);
  }
  T *p() { return v.data() + 8; }
  long off(const VL &rel) const { long o = rel[0]; for (size_t k = 1; k < rel.size(); k++) o = o * ld[k - 1] + rel[k]; return o; }
  bool clean(const std::set<long> &used) const {
    for (long k = 0; k < (long)v.size(); k++) if (!used.count(k - 8) && v[k] != can) return false;
    return true;
  }
};
static VL sub(const VL &a, const VL &b) { VL c; for (size_t k = 0; k < a.size(); k++) c.push_back(a[k] - b[k]); return c; }

struct Arr {
  int h; Model m; VL lo, hi; bool have;
  std::string name;
  Arr(const VL &d) : h(0), m(d), have(false) {}
};
static bool local(const Arr &A, const VL &ix) {
  if (!A.have) return false;
  for (size_t k = 0; k < ix.size(); k++) if (ix[k] < A.lo[k] || ix[k] > A.hi[k]) return false;
  return true;
}
static void compare(const char *what, Arr &A, const VL &ix, const unsigned char *p, long n) {
  Obj &o = A.m.at(ix);
  if (n != (long)o.b.size()) violation(fmt("gp-%s-size", what), "%s%s: size %ld, stored with %ld", what, dimstr(ix).c_str(), n, (long)o.b.size());
  for (long k = 0; k < n; k++)
    if (p[k] != o.b[k]) violation(fmt("gp-%s-contents", what), "%s%s: byte %ld of %ld is %d, not %d", what, dimstr(ix).c_str(), k, n, p[k], o.b[k]);
  count("objects_compared");
  count("bytes_compared", n);
}

static void do_get(Arr &A, const Patch &p, Rng &r) {
  int nd = (int)p.lo.size();
  Dims lo(p.lo), hi(p.hi);
  VL ext;
  for (int k = 0; k < nd; k++) ext.push_back(p.hi[k] - p.lo[k] + 1);
  long total = 0;
  each(p, [&](const VL &ix, long) { total += (long)A.m.at(ix).b.size(); });
  int size = -1;
  opmark("get_size %s", p.str().c_str());
  GP_Get_size(A.h, lo.i, hi.i, &size);
  if (size != total) violation("gp-get_size", "%s: %d bytes, the elements hold %ld", p.str().c_str(), size, total);
  Frame<int> sz(r, ext, -77);
  Frame<void *> bp(r, ext, (void *)0x7777);
  Dims ld(bp.ld), lds(sz.ld);
  std::set<long> us, up;
  Bytes buf(total + 64, 0xA5);
  bool setbuf = r.one_in(3);
  if (setbuf) { // the caller chooses where every element goes, in reverse order here
    long o = 32 + total;
    each(p, [&](const VL &ix, long) {
      long n = (long)A.m.at(ix).b.size();
      o -= n;
      bp.p()[bp.off(sub(ix, p.lo))] = buf.data() + o;
      sz.p()[sz.off(sub(ix, p.lo))] = (int)n;
    });
  }
  int sz2 = -1;
  opmark("get %s setbuf=%d", p.str().c_str(), setbuf);
  GP_Get(A.h, lo.i, hi.i, buf.data() + 32, bp.p(), ld.i, sz.p(), lds.i, &sz2, setbuf);
  if (sz2 != total && !setbuf) violation("gp-get-total", "%s: reports %d bytes instead of %ld", p.str().c_str(), sz2, total);
  long o = 32 + total;
  std::vector<std::pair<long, long>> iv;
  each(p, [&](const VL &ix, long) {
    long a = bp.off(sub(ix, p.lo)), b = sz.off(sub(ix, p.lo));
    up.insert(a); us.insert(b);
    long n = sz.p()[b];
    unsigned char *q = (unsigned char *)bp.p()[a];
    if (n < 0 || q < buf.data() + 32 || q + n > buf.data() + 32 + total) violation("gp-get-pointer", "%s: element %s was placed outside the buffer (size %ld)", p.str().c_str(), dimstr(ix).c_str(), n);
    compare("get", A, ix, q, n);
    if (n) iv.push_back({q - buf.data(), n});
    (void)o;
  });
  std::sort(iv.begin(), iv.end());
  for (size_t k = 1; k < iv.size(); k++) if (iv[k - 1].first + iv[k - 1].second > iv[k].first) violation("gp-get-overlap", "%s: two elements share bytes of the buffer", p.str().c_str());
  for (int k = 0; k < 32; k++) if (buf[k] != 0xA5 || buf[32 + total + k] != 0xA5) violation("gp-frame", "get %s wrote outside the data buffer", p.str().c_str());
  if (!sz.clean(us)) violation("gp-frame", "get %s wrote outside the size block", p.str().c_str());
  if (!bp.clean(up)) violation("gp-frame", "get %s wrote outside the pointer block", p.str().c_str());
  count("gets");
}
static void do_gather(Arr &A, const std::vector<VL> &el, Rng &r) {
  int nd = (int)A.m.dims.size(), nv = (int)el.size();
  std::vector<int> ss;
  long total = 0;
  for (auto &ix : el) { for (long x : ix) ss.push_back((int)x); total += (long)A.m.at(ix).b.size(); }
  int size = -1;
  opmark("gather_size n=%d", nv);
  GP_Gather_size(A.h, nv, ss.data(), &size);
  if (size != total) violation("gp-gather_size", "%d elements: %d bytes, they hold %ld", nv, size, total);
  Bytes buf(total + 64, 0xA5);
  std::vector<void *> bp(nv + 2, (void *)0x7777);
  std::vector<int> sz(nv + 2, -77);
  bool setbuf = r.one_in(3);
  if (setbuf) {
    long o = 32 + total;
    for (int k = 0; k < nv; k++) { long n = (long)A.m.at(el[k]).b.size(); o -= n; bp[k + 1] = buf.data() + o; sz[k + 1] = (int)n; }
  }
  int sz2 = -1;
  opmark("gather n=%d setbuf=%d", nv, setbuf);
  GP_Gather(A.h, nv, ss.data(), buf.data() + 32, bp.data() + 1, sz.data() + 1, &sz2, setbuf);
  if (sz2 != total) violation("gp-gather-total", "%d elements: reports %d bytes instead of %ld", nv, sz2, total);
  for (int k = 0; k < nv; k++) {
    unsigned char *q = (unsigned char *)bp[k + 1];
    long n = sz[k + 1];
    if (n < 0 || q < buf.data() + 32 || q + n > buf.data() + 32 + total) violation("gp-gather-pointer", "element %s was placed outside the buffer (size %ld)", dimstr(el[k]).c_str(), n);
    compare("gather", A, el[k], q, n);
  }
  for (int k = 0; k < 32; k++) if (buf[k] != 0xA5 || buf[32 + total + k] != 0xA5) violation("gp-frame", "gather of %d elements wrote outside the data buffer", nv);
  if (bp[0] != (void *)0x7777 || bp[nv + 1] != (void *)0x7777 || sz[0] != -77 || sz[nv + 1] != -77) violation("gp-frame", "gather of %d elements wrote outside its lists", nv);
  (void)nd;
  count("gathers");
}
static std::vector<VL> rnd_list(Rng &r, const Arr &A, long n) {
  std::vector<long> v;
  for (long k = 0; k < (long)A.m.o.size(); k++) v.push_back(k);
  for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.in(0, (long)k - 1)]);
  if ((long)v.size() > n) v.resize(n);
  std::vector<VL> o;
  for (long k : v) o.push_back(A.m.ix(k));
  return o;
}
static void assign(Arr &A, long p, const Obj &n) { // on the owner
  VL ix = A.m.ix(p);
  Dims I(ix);
  if (A.m.o[p].set) {
    void *old = GP_Free_local_element(A.h, I.i);
    if (!old) violation("gp-free", "the stored element %s has no address", dimstr(ix).c_str());
    GP_Free(old);
    count("freed");
  }
  if (!n.set) return;
  unsigned char *q = (unsigned char *)GP_Malloc(n.b.size());
  if (!q) harness_error("GP_Malloc");
  if (!n.b.empty()) memcpy(q, n.b.data(), n.b.size());
  GP_Assign_local_element(A.h, I.i, q, (int)n.b.size());
  count("assigned");
}
static void check_access(Arr &A) {
  if (!A.have) return;
  opmark("access_element");
  each(Patch{A.lo, A.hi}, [&](const VL &ix, long) {
    Dims I(ix);
    unsigned char *q = nullptr;
    int n = -1;
    GP_Access_element(A.h, I.i, &q, &n);
    if (!A.m.at(ix).set && q) violation("gp-access-null", "element %s without an object has an address", dimstr(ix).c_str());
    compare("access", A, ix, q, n);
    GP_Release_element(A.h, I.i);
  });
  count("accesses");
}

static void run_case(long i) {
  Rng r(sub_seed(i)), lr(sub_seed(i, 1000 + me));
  int nd = (int)r.in(1, r.one_in(3) ? 7 : 4);
  VL dims = rnd_dims(r, nd, 260);
  Arr A(dims);
  int kind = (int)r.in(0, 2);
  VL chunk, nblk, map;
  if (kind == 1) for (int k = 0; k < nd; k++) chunk.push_back(r.one_in(3) ? -1 : r.in(1, dims[k]));
  if (kind == 2) {
    LayoutOpt lo;
    lo.kinds = {IRREG};
    Layout L = rnd_layout(r, dims, np, lo);
    if (L.kind == IRREG) { nblk = L.nblk; map = L.map; } else kind = 0;
  }
  begin_case(i, fmt("dims=%s %s%s%s", dimstr(dims).c_str(), kind == 0 ? "regular" : kind == 1 ? "chunk=" : "irreg nblk=", kind == 1 ? dimstr(chunk).c_str() : kind == 2 ? dimstr(nblk).c_str() : "", kind == 2 ? (" map=" + dimstr(map)).c_str() : ""));
  opmark("create");
  A.h = GP_Create_handle();
  { Dims d(dims); GP_Set_dimensions(A.h, nd, d.i); }
  if (GP_Get_dimension(A.h) != nd) violation("gp-dimension", "wrong");
  if (kind == 1) { Dims c(chunk); GP_Set_chunk(A.h, c.i); }
  if (kind == 2) { std::vector<int> mp(map.begin(), map.end()), nb(nblk.begin(), nblk.end()); GP_Set_irreg_distr(A.h, mp.data(), nb.data()); }
  if (!GP_Allocate(A.h)) violation("gp-allocate", "failed");
  // every element belongs to exactly one process
  std::vector<int> owner(A.m.o.size(), -1);
  for (int q = 0; q < np; q++) {
    std::vector<int> lo(nd), hi(nd);
    GP_Distribution(A.h, q, lo.data(), hi.data());
    VL L(lo.begin(), lo.end()), Hh(hi.begin(), hi.end());
    bool e = false;
    for (int k = 0; k < nd; k++) if (Hh[k] < L[k] || L[k] < 0) e = true;
    if (q == me) { A.lo = L; A.hi = Hh; A.have = !e; }
    if (!e) each(Patch{L, Hh}, [&](const VL &ix, long) { long p = A.m.ord(ix); if (owner[p] >= 0) violation("gp-distribution", "element %s belongs to %d and %d", dimstr(ix).c_str(), owner[p], q); owner[p] = q; });
  }
  for (size_t p = 0; p < owner.size(); p++) if (owner[p] < 0) violation("gp-distribution", "element %s belongs to nobody", dimstr(A.m.ix(p)).c_str());
  count("elements_owned", (long)owner.size());
  int epochs = (int)r.in(2, 5);
  for (int e = 0; e < epochs; e++) {
    int what = e == 0 ? 0 : (int)r.in(0, 3);
    if (what == 0) { // owners store new objects
      opmark("assign");
      long dens = r.in(1, 4);
      for (size_t p = 0; p < A.m.o.size(); p++) {
        if (r.in(0, 3) >= dens) continue;
        Obj n;
        n.set = !r.one_in(8);
        if (n.set) n.b = content(r.next(), rnd_size(r));
        if (owner[p] == me) assign(A, (long)p, n);
        A.m.o[p] = n;
      }
    } else if (what == 1) { // whole patches, disjoint between the processes: cut along one dimension
      int d = (int)r.in(0, nd - 1);
      std::vector<long> cuts = {0};
      for (int q = 1; q < np; q++) cuts.push_back(r.in(0, dims[d]));
      cuts.push_back(dims[d]);
      std::sort(cuts.begin(), cuts.end());
      std::vector<int> who;
      for (int q = 0; q < np; q++) who.push_back(q);
      for (int q = np; q > 1; q--) std::swap(who[q - 1], who[r.in(0, q - 1)]);
      for (int q = 0; q < np; q++) {
        Patch p = rnd_patch(r, dims);
        p.lo[d] = cuts[q]; p.hi[d] = cuts[q + 1] - 1;
        uint64_t seed = r.next();
        bool check = r.one_in(2);
        if (p.hi[d] < p.lo[d]) continue;
        long total = 0;
        each(p, [&](const VL &ix, long k) { Obj &o = A.m.at(ix); if (o.set) o.b = content(seed + k, (long)o.b.size()); total += (long)o.b.size(); });
        if (who[q] != me) continue;
        VL ext;
        for (int k = 0; k < nd; k++) ext.push_back(p.hi[k] - p.lo[k] + 1);
        Frame<int> sz(lr, ext, -77);
        Frame<void *> bp(lr, ext, (void *)0x7777);
        Dims lo(p.lo), hi(p.hi), ld(bp.ld), lds(sz.ld);
        each(p, [&](const VL &ix, long) { Obj &o = A.m.at(ix); bp.p()[bp.off(sub(ix, p.lo))] = o.b.data(); sz.p()[sz.off(sub(ix, p.lo))] = (int)o.b.size(); });
        auto s0 = sz.v; auto b0 = bp.v;
        int s2 = -1;
        opmark("put %s check=%d", p.str().c_str(), check);
        GP_Put(A.h, lo.i, hi.i, bp.p(), ld.i, sz.p(), lds.i, &s2, check);
        if (s0 != sz.v || b0 != bp.v) violation("gp-frame", "put %s changed its size or pointer list", p.str().c_str());
        if (s2 != total) violation("gp-put-total", "%s: reports %d bytes instead of %ld", p.str().c_str(), s2, total);
        count("puts");
      }
    } else if (what == 2) { // lists of elements, disjoint between the processes
      auto el = rnd_list(r, A, r.in(1, 80));
      bool check = r.one_in(2);
      std::vector<VL> mine;
      for (auto &ix : el) {
        int q = (int)r.in(0, np - 1);
        Obj &o = A.m.at(ix);
        uint64_t seed = r.next();
        if (o.set) o.b = content(seed, (long)o.b.size());
        if (q == me) mine.push_back(ix);
      }
      if (!mine.empty()) {
        int nv = (int)mine.size(), s2 = -1;
        std::vector<int> ss, sz;
        std::vector<void *> bp;
        long total = 0;
        for (auto &ix : mine) { for (long x : ix) ss.push_back((int)x); Obj &o = A.m.at(ix); bp.push_back(o.b.data()); sz.push_back((int)o.b.size()); total += (long)o.b.size(); }
        opmark("scatter n=%d check=%d", nv, check);
        GP_Scatter(A.h, nv, ss.data(), bp.data(), sz.data(), &s2, check);
        if (s2 != total) violation("gp-scatter-total", "%d elements: reports %d bytes instead of %ld", nv, s2, total);
        count("scatters");
      }
    } else if (r.one_in(3)) {
      opmark("memzero");
      GP_Memzero(A.h);
      for (auto &o : A.m.o) std::fill(o.b.begin(), o.b.end(), 0);
      count("memzeros");
    } else { // owners change their objects in place
      opmark("update in place");
      for (size_t p = 0; p < A.m.o.size(); p++) {
        Obj &o = A.m.o[p];
        uint64_t seed = r.next();
        if (!o.set || seed % 3) continue;
        o.b = content(seed, (long)o.b.size());
        if (owner[p] != me) continue;
        VL ix = A.m.ix((long)p);
        Dims I(ix);
        unsigned char *q; int n;
        GP_Access_element(A.h, I.i, &q, &n);
        if (n != (int)o.b.size()) violation("gp-access-size", "%s: %d instead of %ld", dimstr(ix).c_str(), n, (long)o.b.size());
        if (n) memcpy(q, o.b.data(), n);
        GP_Release_update_element(A.h, I.i);
      }
    }
    GP_Sync();
    progress("epoch");
    int ng = (int)lr.in(1, 4);
    for (int k = 0; k < ng; k++) {
      if (lr.one_in(2)) do_get(A, lr.one_in(4) ? whole(dims) : rnd_patch(lr, dims), lr);
      else do_gather(A, rnd_list(lr, A, lr.in(1, 60)), lr);
    }
    check_access(A);
    GP_Sync();
  }
  opmark("free");
  for (size_t p = 0; p < A.m.o.size(); p++) if (owner[p] == me && A.m.o[p].set && !r.one_in(1000000)) assign(A, (long)p, Obj());
  GP_Sync();
  opmark("destroy");
  if (!GP_Destroy(A.h)) violation("gp-destroy", "failed");
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  GP_Initialize();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  GP_Terminate();
  ga_stop();
}
