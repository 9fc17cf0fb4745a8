// C19: ARMCI one-sided operations, atomics, mutexes, fences, groups and messages on every runtime,
// compared with a replicated byte-level model of every process's memory.
#include "mon.h"
extern "C" {
#include "armci.h"
#include "message.h"
int comex_put(void *, void *, int, int, int);
int comex_get(void *, void *, int, int, int);
int comex_acc(int, void *, void *, void *, int, int, int);
int comex_puts(void *, int *, void *, int *, int *, int, int, int);
int comex_gets(void *, int *, void *, int *, int *, int, int, int);
int comex_accs(int, void *, void *, int *, void *, int *, int *, int, int, int);
int comex_nbputs(void *, int *, void *, int *, int *, int, int, int, int *);
int comex_nbgets(void *, int *, void *, int *, int *, int, int, int, int *);
int comex_nbaccs(int, void *, void *, int *, void *, int *, int *, int, int, int, int *);
#ifdef PORT_MPI3
enum { WORLD_RANKS = 1 }; // comex on MPI-3 documents 'proc' as a global rank
#else
enum { WORLD_RANKS = 0 };
#endif
struct cgiov { void **src, **dst; int count, bytes; };
int comex_putv(cgiov *, int, int, int);
int comex_getv(cgiov *, int, int, int);
int comex_accv(int, void *, cgiov *, int, int, int);
int comex_rmw(int, void *, void *, int, int, int);
int comex_fence_all(int);
int comex_fence_proc(int, int);
int comex_barrier(int);
int comex_wait_all(int);
int comex_wait_proc(int, int);
}
#ifdef PORT_MPI3
static const bool NO_WAITPROC = true; // not implemented there
#else
static const bool NO_WAITPROC = false;
#endif
using namespace mon;
typedef std::vector<char> Bytes;
typedef std::vector<int> VI;

static volatile long *shm; // out-of-band memory of all processes
static const long SHM = 1 << 20;

struct Grp { ARMCI_Group h = 0; VI mem; int depth = 0; int rank(int p) const { for (size_t i = 0; i < mem.size(); i++) if (mem[i] == p) return (int)i; return -1; } bool has(int p) const { return rank(p) >= 0; } };
static std::vector<Grp> gs; // gs[0] is the world

static const int AT[] = {ARMCI_ACC_INT, ARMCI_ACC_DBL, ARMCI_ACC_FLT, ARMCI_ACC_CPL, ARMCI_ACC_DCP, ARMCI_ACC_LNG};
static int es_of(int t) { return t == ARMCI_ACC_INT || t == ARMCI_ACC_FLT ? 4 : t == ARMCI_ACC_DCP ? 16 : 8; }
static void rnd_elem(int t, Rng &r, char *p, bool scale) {
  long a = scale ? r.in(-3, 4) : r.in(-100, 100), b = scale ? r.in(-2, 2) : r.in(-100, 100);
  if (scale && r.one_in(3)) { a = 1; b = 0; }
  switch (t) {
  case ARMCI_ACC_INT: { int x = (int)a; if (!scale && r.one_in(4)) x = (int)r.next(); memcpy(p, &x, 4); break; }
  case ARMCI_ACC_LNG: { long x = a; if (!scale && r.one_in(4)) x = (long)r.next(); memcpy(p, &x, 8); break; }
  case ARMCI_ACC_FLT: { float x = (float)a; memcpy(p, &x, 4); break; }
  case ARMCI_ACC_DBL: { double x = a; memcpy(p, &x, 8); break; }
  case ARMCI_ACC_CPL: { float x[2] = {(float)a, (float)b}; memcpy(p, x, 8); break; }
  case ARMCI_ACC_DCP: { double x[2] = {(double)a, (double)b}; memcpy(p, x, 16); break; }
  }
}
static void acc_elem(int t, const char *s, const char *src, char *dst) {
  switch (t) {
  case ARMCI_ACC_INT: { unsigned a, b, c; memcpy(&a, s, 4); memcpy(&b, src, 4); memcpy(&c, dst, 4); c += a * b; memcpy(dst, &c, 4); break; }
  case ARMCI_ACC_LNG: { unsigned long a, b, c; memcpy(&a, s, 8); memcpy(&b, src, 8); memcpy(&c, dst, 8); c += a * b; memcpy(dst, &c, 8); break; }
  case ARMCI_ACC_FLT: { float a, b, c; memcpy(&a, s, 4); memcpy(&b, src, 4); memcpy(&c, dst, 4); c += a * b; memcpy(dst, &c, 4); break; }
  case ARMCI_ACC_DBL: { double a, b, c; memcpy(&a, s, 8); memcpy(&b, src, 8); memcpy(&c, dst, 8); c += a * b; memcpy(dst, &c, 8); break; }
  case ARMCI_ACC_CPL: { float a[2], b[2], c[2]; memcpy(a, s, 8); memcpy(b, src, 8); memcpy(c, dst, 8); c[0] += a[0] * b[0] - a[1] * b[1]; c[1] += a[0] * b[1] + a[1] * b[0]; memcpy(dst, c, 8); break; }
  case ARMCI_ACC_DCP: { double a[2], b[2], c[2]; memcpy(a, s, 16); memcpy(b, src, 16); memcpy(c, dst, 16); c[0] += a[0] * b[0] - a[1] * b[1]; c[1] += a[0] * b[1] + a[1] * b[0]; memcpy(dst, c, 16); break; }
  }
}

// one shared allocation: bytes [0,split) hold raw bytes, [split,size) accumulate elements of type t
struct Seg {
  int g; int t; std::vector<void *> ptr; std::vector<long> size, split;
  std::vector<Bytes> mdl; std::vector<std::vector<unsigned char>> mark;
};
static std::vector<Seg> segs;

struct Chunk { long a, b, n; }; // local offset, remote offset, bytes

enum Kind { PUT, GET, ACC };
enum Form { CONTIG, STRIDED, VECTOR, VALUE };
struct Op {
  int kind, form, via, origin, target, seg, t, grp; int bufkind;
  long lo = 0, ro = 0, lspan = 0; // base offsets
  VI cnt, ls, rs; int lev = 0;
  struct D { int n, bytes; std::vector<long> l, r; }; std::vector<D> d;
  char scale[16]; std::vector<Chunk> ch; uint64_t vseed; int vt = 0;
};

static void strides(Rng &r, const VI &cnt, int lev, long unit, bool shared_ok, VI &st, long &span) {
  st.assign(9, 0);
  VI ord(lev);
  for (int i = 0; i < lev; i++) ord[i] = i;
  if (lev > 1 && r.one_in(5)) r.shuffle(ord);
  long ext = cnt[0];
  int style = (int)r.in(0, 3);
  for (int k : ord) {
    long pad = style == 0 ? 0 : style == 1 ? unit * r.in(0, 3) : r.one_in(2) ? 0 : unit * r.in(0, 9);
    long s = ext + pad;
    if (s % unit) s += unit - s % unit;
    if (style == 3 && r.one_in(2)) s = (s + 31) / 32 * 32;
    st[k] = (int)s;
    ext = s * (cnt[k + 1] - 1) + ext;
    if (r.one_in(2)) ext += unit * r.in(0, 2);
  }
  if (shared_ok && lev && r.one_in(8)) { int k = (int)r.in(0, lev - 1); st[k] = (int)(unit * r.in(0, (long)std::max(1L, (long)cnt[0] / unit))); } // overlapping reads
  span = cnt[0];
  for (int i = 0; i < lev; i++) span += (long)st[i] * (cnt[i + 1] - 1);
}
static void expand_strided(Op &o) {
  VI ix(o.lev, 0);
  for (;;) {
    long l = o.lo, q = o.ro;
    for (int i = 0; i < o.lev; i++) { l += (long)ix[i] * o.ls[i]; q += (long)ix[i] * o.rs[i]; }
    o.ch.push_back({l, q, o.cnt[0]});
    int i = 0;
    for (; i < o.lev; i++) { if (++ix[i] < o.cnt[i + 1]) break; ix[i] = 0; }
    if (i == o.lev) break;
  }
}
static const char *kname(int k) { return k == PUT ? "put" : k == GET ? "get" : "acc"; }
static const char *fname(int f) { return f == CONTIG ? "contig" : f == STRIDED ? "strided" : f == VECTOR ? "vector" : "value"; }

// marks: 0 untouched, 1 written, 2 accumulated, 3 read
static bool claim(Op &o) {
  auto &m = segs[o.seg].mark[o.target];
  unsigned char want = o.kind == PUT ? 1 : o.kind == ACC ? 2 : 3;
  for (auto &c : o.ch) for (long i = 0; i < c.n; i++) {
    unsigned char x = m[c.b + i];
    if (x && !(x == want && want != 1)) return false;
  }
  if (want == 1) { // a put must not write a byte twice
    std::set<long> seen;
    for (auto &c : o.ch) for (long i = 0; i < c.n; i++) if (!seen.insert(c.b + i).second) return false;
  }
  for (auto &c : o.ch) for (long i = 0; i < c.n; i++) m[c.b + i] = want;
  return true;
}

static bool gen_op(Rng &r, Op &o) {
  o = Op();
  o.kind = (int)r.in(0, 2);
  o.form = r.one_in(8) ? VALUE : r.one_in(4) ? CONTIG : r.one_in(2) ? STRIDED : VECTOR;
  if (o.form == VALUE && o.kind == ACC) o.form = CONTIG;
  o.seg = (int)r.in(0, (long)segs.size() - 1);
  Seg &s = segs[o.seg];
  const Grp &g = gs[s.g];
  o.target = g.mem[r.in(0, (long)g.mem.size() - 1)];
  o.origin = g.mem[r.in(0, (long)g.mem.size() - 1)];
  o.via = (int)r.in(0, 6);
  o.grp = -1;
  if (o.via >= 5) { // transport groups holding both ends
    VI c;
    for (size_t k = 0; k < gs.size(); k++) if (gs[k].has(o.origin) && gs[k].has(o.target)) c.push_back((int)k);
    o.grp = c[r.in(0, (long)c.size() - 1)];
  }
  o.bufkind = (int)r.in(0, 2);
  o.vseed = r.next();
  bool az = o.kind == ACC || r.one_in(5);
  if (o.kind == PUT && az) az = false;
  long zlo = az ? s.split[o.target] : 0, zhi = az ? s.size[o.target] : s.split[o.target];
  long unit = o.kind == ACC ? es_of(s.t) : 1;
  if (o.kind == PUT && r.one_in(2)) unit = 8;
  o.t = s.t;
  rnd_elem(s.t, r, o.scale, true);
  long room = zhi - zlo;
  if (room < unit) return false;
  long lmax = 0;
  bool big = r.one_in(12);
  if (o.form == VALUE) {
    static const int vs[] = {4, 8, 4, 8};
    o.vt = (int)r.in(0, 3);
    int n = vs[o.vt];
    if (room < n) return false;
    o.ro = zlo + r.in(0, room - n) / n * n;
    if (o.ro + n > zhi) return false;
    if (o.ro % n) return false;
    o.lo = 0; o.ch.push_back({0, o.ro, n}); lmax = n;
    if (o.via >= 5) o.via = 0;
  } else if (o.form == CONTIG) {
    long mx = room / unit, n = big ? mx : r.in(1, std::min(mx, 1L + (1L << r.in(0, 10))));
    o.cnt = {(int)(n * unit)};
    o.ro = zlo + r.in(0, (room - n * unit) / unit) * unit;
    o.lo = r.in(0, 3) * unit; lmax = n * unit;
    o.ch.push_back({o.lo, o.ro, n * unit});
  } else if (o.form == STRIDED) {
    int tries = 0;
    long lspan = 0, rspan = 0;
    for (;; tries++) {
      if (tries > 6) return false;
      o.lev = r.one_in(10) ? (int)r.in(3, 7) : (int)r.in(0, 3);
      o.cnt.assign(9, 1);
      o.cnt[0] = (int)(unit * r.in(1, r.one_in(3) ? 40 : 4));
      long tot = 1;
      for (int i = 1; i <= o.lev; i++) { o.cnt[i] = (int)r.in(1, tries > 2 || tot > 300 ? 2 : r.one_in(5) ? 17 : 5); tot *= o.cnt[i]; }
      strides(r, o.cnt, o.lev, unit, o.kind != GET, o.ls, lspan);
      strides(r, o.cnt, o.lev, unit, o.kind == GET, o.rs, rspan);
      if (rspan <= room && lspan < 200000) break;
    }
    o.ro = zlo + r.in(0, (room - rspan) / unit) * unit;
    o.lo = r.in(0, 3) * unit; lmax = lspan;
    expand_strided(o);
  } else {
    int nd = (int)r.in(1, 3);
    long lpos = r.in(0, 3) * unit;
    std::vector<char> used(room, 0);
    for (int k = 0; k < nd; k++) {
      Op::D d; d.bytes = (int)(unit * r.in(1, r.one_in(4) ? 64 : 6));
      if (r.one_in(12)) d.bytes = (int)(unit * r.in(100, 600));
      int want = (int)r.in(1, r.one_in(6) ? 60 : 9);
      bool samesrc = o.kind != GET && r.one_in(6);
      for (int j = 0; j < want; j++) {
        if (room < d.bytes) break;
        long p = r.in(0, (room - d.bytes) / unit) * unit;
        bool bad = false;
        if (o.kind != GET) for (long q = p; q < p + d.bytes; q++) if (used[q]) { bad = true; break; }
        if (bad) continue;
        if (o.kind != GET) for (long q = p; q < p + d.bytes; q++) used[q] = 1;
        d.r.push_back(zlo + p); d.l.push_back(lpos);
        if (!samesrc) { lpos += d.bytes; if (r.one_in(3)) lpos += unit * r.in(0, 3); }
      }
      lpos += d.bytes;
      d.n = (int)d.r.size();
      if (d.n) { for (int j = 0; j < d.n; j++) o.ch.push_back({d.l[j], d.r[j], d.bytes}); o.d.push_back(d); }
    }
    if (o.d.empty()) return false;
    lmax = lpos;
  }
  o.lspan = o.lo + lmax;
  return claim(o);
}

static void fill_src(const Op &o, Bytes &b) {
  Rng r(o.vseed);
  long n = (long)b.size();
  if (o.kind == ACC) { int e = es_of(o.t); for (long i = 0; i + e <= n; i += e) rnd_elem(o.t, r, &b[i], false); }
  else for (long i = 0; i < n; i++) b[i] = (char)r.next();
}
static void model_op(const Op &o) {
  auto &m = segs[o.seg].mdl[o.target];
  if (o.kind == GET) return;
  Bytes src(o.lspan + 64);
  fill_src(o, src);
  for (auto &c : o.ch) {
    if (o.kind == PUT) memcpy(&m[c.b], &src[c.a], c.n);
    else { int e = es_of(o.t); for (long i = 0; i < c.n; i += e) acc_elem(o.t, o.scale, &src[c.a + i], &m[c.b + i]); }
  }
}

struct Pend { Op o; char *buf; Bytes ref; armci_hdl_t h; int how; Bytes *own; void *loc; };
static std::vector<Pend> pend;
static void check_buf(const Op &o, const char *b, Bytes &ref) {
  if (o.kind == GET) {
    auto &m = segs[o.seg].mdl[o.target];
    for (auto &c : o.ch) memcpy(&ref[c.a], &m[c.b], c.n);
    count("bytes_got", (long)o.ch.size() * o.ch[0].n);
  }
  for (size_t i = 0; i < ref.size(); i++) if (ref[i] != b[i])
    violation(fmt("%s:%s:%s", kname(o.kind), fname(o.form), o.kind == GET ? "data" : "source"), "byte %zu of the local buffer is %02x, should be %02x (%d->%d seg %d via %d grp %d lev %d)", i, b[i] & 255, ref[i] & 255, o.origin, o.target, o.seg, o.via, o.grp, o.lev);
}
static void trash(char *b, size_t n) { memset(b, 0x5a, n); }
static void release(Pend &p) { if (p.loc) ARMCI_Free_local(p.loc); delete p.own; p.own = nullptr; p.loc = nullptr; }

static void exec_op(const Op &o0, Rng &lr) {
  Op o = o0;
  Seg &s = segs[o.seg];
  char *rb = (char *)s.ptr[o.target];
  size_t n = o.lspan + 64;
  Bytes ref(n);
  fill_src(o, ref);
  Pend p; p.o = o; p.own = nullptr; p.loc = nullptr; p.h = 0; p.how = 0;
  char *b;
  if (o.bufkind == 1) { p.loc = ARMCI_Malloc_local(n); if (!p.loc) violation("malloc_local", "no memory for %zu bytes", n); b = (char *)p.loc; }
  else { p.own = new Bytes(n); b = p.own->data(); }
  memcpy(b, ref.data(), n);
  p.buf = b;
  int P = o.target, via = o.via;
  opmark("%s:%s %d->%d seg %d via %d grp %d", kname(o.kind), fname(o.form), o.origin, o.target, o.seg, o.via, o.grp);
  int rc = 0;
  bool nb = via >= 1 && via <= 4;
  armci_hdl_t *h = via == 3 || via == 4 ? (lr.one_in(2) ? nullptr : &p.h) : &p.h;
  int gh = o.grp >= 0 ? gs[o.grp].h : 0, gr = o.grp >= 0 && !WORLD_RANKS ? gs[o.grp].rank(P) : P;
  char *L = b + o.lo, *Rm = rb + o.ro;
  count(std::string("op_") + kname(o.kind) + "_" + fname(o.form));
  if (P == me) count("to_self");
  if (o.form == VALUE) {
    if (o.kind == PUT) {
      if (o.vt == 0) { int v; memcpy(&v, b, 4); rc = nb ? ARMCI_NbPutValueInt(v, Rm, P, &p.h) : ARMCI_PutValueInt(v, Rm, P); }
      if (o.vt == 1) { long v; memcpy(&v, b, 8); rc = nb ? ARMCI_NbPutValueLong(v, Rm, P, &p.h) : ARMCI_PutValueLong(v, Rm, P); }
      if (o.vt == 2) { float v; memcpy(&v, b, 4); rc = nb ? ARMCI_NbPutValueFloat(v, Rm, P, &p.h) : ARMCI_PutValueFloat(v, Rm, P); }
      if (o.vt == 3) { double v; memcpy(&v, b, 8); rc = nb ? ARMCI_NbPutValueDouble(v, Rm, P, &p.h) : ARMCI_PutValueDouble(v, Rm, P); }
      if (nb) h = &p.h;
    } else {
      nb = false;
      if (o.vt == 0) { int v = ARMCI_GetValueInt(Rm, P); memcpy(b, &v, 4); }
      if (o.vt == 1) { long v = ARMCI_GetValueLong(Rm, P); memcpy(b, &v, 8); }
      if (o.vt == 2) { float v = ARMCI_GetValueFloat(Rm, P); memcpy(b, &v, 4); }
      if (o.vt == 3) { double v = ARMCI_GetValueDouble(Rm, P); memcpy(b, &v, 8); }
    }
  } else if (o.form == CONTIG) {
    int k = o.cnt[0];
    if (o.kind == PUT) rc = via >= 5 ? comex_put(L, Rm, k, gr, gh) : nb ? ARMCI_NbPut(L, Rm, k, P, h) : ARMCI_Put(L, Rm, k, P);
    if (o.kind == GET) rc = via >= 5 ? comex_get(Rm, L, k, gr, gh) : nb ? ARMCI_NbGet(Rm, L, k, P, h) : ARMCI_Get(Rm, L, k, P);
    if (o.kind == ACC) { // there is no contiguous non-blocking accumulate in ARMCI
      int c1[1] = {k}, z[1] = {0};
      rc = via >= 5 ? comex_acc(o.t, o.scale, L, Rm, k, gr, gh) : nb ? ARMCI_NbAccS(o.t, o.scale, L, z, Rm, z, c1, 0, P, h) : ARMCI_Acc(o.t, o.scale, L, Rm, k, P);
    }
  } else if (o.form == STRIDED) {
    VI lsv = o.ls, rsv = o.rs, cv = o.cnt;
    int *ls = lsv.data(), *rs = rsv.data(), *c = cv.data(), lev = o.lev;
    bool nbx = via == 6;
    if (o.kind == PUT) rc = nbx ? comex_nbputs(L, ls, Rm, rs, c, lev, gr, gh, &p.h) : via == 5 ? comex_puts(L, ls, Rm, rs, c, lev, gr, gh) : nb ? ARMCI_NbPutS(L, ls, Rm, rs, c, lev, P, h) : ARMCI_PutS(L, ls, Rm, rs, c, lev, P);
    if (o.kind == GET) rc = nbx ? comex_nbgets(Rm, rs, L, ls, c, lev, gr, gh, &p.h) : via == 5 ? comex_gets(Rm, rs, L, ls, c, lev, gr, gh) : nb ? ARMCI_NbGetS(Rm, rs, L, ls, c, lev, P, h) : ARMCI_GetS(Rm, rs, L, ls, c, lev, P);
    if (o.kind == ACC) rc = nbx ? comex_nbaccs(o.t, o.scale, L, ls, Rm, rs, c, lev, gr, gh, &p.h) : via == 5 ? comex_accs(o.t, o.scale, L, ls, Rm, rs, c, lev, gr, gh) : nb ? ARMCI_NbAccS(o.t, o.scale, L, ls, Rm, rs, c, lev, P, h) : ARMCI_AccS(o.t, o.scale, L, ls, Rm, rs, c, lev, P);
    if (nbx) { nb = true; h = &p.h; via = 1; }
    if (lsv != o.ls || rsv != o.rs || cv != o.cnt) violation(fmt("%s:strided:args", kname(o.kind)), "the stride or count arrays were changed");
    count("levels", o.lev);
  } else {
    std::vector<std::vector<void *>> S, D;
    std::vector<armci_giov_t> v; std::vector<cgiov> cv;
    for (auto &d : o.d) {
      std::vector<void *> l, q;
      for (int j = 0; j < d.n; j++) { l.push_back(b + d.l[j]); q.push_back(rb + d.r[j]); }
      S.push_back(o.kind == GET ? q : l); D.push_back(o.kind == GET ? l : q);
    }
    for (size_t k = 0; k < o.d.size(); k++) {
      v.push_back({S[k].data(), D[k].data(), o.d[k].n, o.d[k].bytes});
      cv.push_back({S[k].data(), D[k].data(), o.d[k].n, o.d[k].bytes});
    }
    auto S0 = S, D0 = D;
    int len = (int)v.size();
    if (o.kind == PUT) rc = via >= 5 ? comex_putv(cv.data(), len, gr, gh) : nb ? ARMCI_NbPutV(v.data(), len, P, h) : ARMCI_PutV(v.data(), len, P);
    if (o.kind == GET) rc = via >= 5 ? comex_getv(cv.data(), len, gr, gh) : nb ? ARMCI_NbGetV(v.data(), len, P, h) : ARMCI_GetV(v.data(), len, P);
    if (o.kind == ACC) rc = via >= 5 ? comex_accv(o.t, o.scale, cv.data(), len, gr, gh) : nb ? ARMCI_NbAccV(o.t, o.scale, v.data(), len, P, h) : ARMCI_AccV(o.t, o.scale, v.data(), len, P);
    if (S0 != S || D0 != D) violation(fmt("%s:vector:args", kname(o.kind)), "the descriptor was changed");
    // the descriptor may be reused at once
    for (auto &x : S) for (auto &y : x) y = nullptr;
    for (auto &x : D) for (auto &y : x) y = nullptr;
  }
  if (rc) violation(fmt("%s:%s:rc", kname(o.kind), fname(o.form)), "returned %d", rc);
  p.ref = ref;
  if (!nb) {
    check_buf(o, b, p.ref);
    trash(b, n);
    release(p);
    return;
  }
  p.how = h ? (via == 2 ? 2 : via == 3 ? 3 : via == 4 ? 4 : 1) : via;
  if (!h) count("implicit_handles");
  if (o.form == VALUE) { trash(b, n); memcpy(p.ref.data(), b, n); }
  pend.push_back(p);
  count("nonblocking");
}
static void complete(size_t k) {
  Pend &p = pend[k];
  opmark("wait %s:%s", kname(p.o.kind), fname(p.o.form));
  if (p.how == 1) { if (ARMCI_Wait(&p.h)) violation("wait:rc", "ARMCI_Wait failed"); }
  else if (p.how == 2) { while (ARMCI_Test(&p.h)) ; count("tests"); }
}
static void finish_pend(size_t k) {
  Pend &p = pend[k];
  check_buf(p.o, p.buf, p.ref);
  trash(p.buf, p.ref.size());
  release(p);
  pend.erase(pend.begin() + k);
}
static void wait_some(Rng &lr, bool all) {
  if (all) {
    std::set<int> procs;
    bool wa = false;
    while (1) { // explicit handles first, in random order
      VI e;
      for (size_t k = 0; k < pend.size(); k++) if (pend[k].how <= 2) e.push_back((int)k);
      if (e.empty()) break;
      int k = e[lr.in(0, (long)e.size() - 1)];
      complete(k); finish_pend(k);
    }
    for (auto &p : pend) { if (p.how == 3 && !NO_WAITPROC) procs.insert(p.o.target); else wa = true; }
    for (int q : procs) { opmark("waitproc"); ARMCI_WaitProc(q); count("waitprocs"); for (size_t k = pend.size(); k-- > 0;) if (pend[k].o.target == q) finish_pend(k); }
    if (wa) { opmark("waitall"); ARMCI_WaitAll(); count("waitalls"); while (!pend.empty()) finish_pend(pend.size() - 1); }
  } else {
    for (size_t k = 0; k < pend.size(); k++) if (pend[k].how <= 2 && lr.one_in(2)) { complete(k); finish_pend(k); break; }
  }
}

static void bar(Rng &r) { // completes everything everywhere
  switch (r.in(0, 3)) {
  case 0: opmark("ARMCI_Barrier"); ARMCI_Barrier(); break;
  case 1: opmark("allfence+msg_barrier"); ARMCI_AllFence(); armci_msg_barrier(); break;
  case 2: { opmark("groupfence+msg_barrier"); ARMCI_Group w; ARMCI_Group_get_world(&w); ARMCI_GroupFence(&w); armci_msg_group_barrier(&w); break; }
  case 3: opmark("fences+msg_barrier"); for (int p = 0; p < np; p++) ARMCI_Fence((p + me) % np); armci_msg_barrier(); break;
  }
}
static void make_seg(Rng &r, int g) {
  Seg s;
  s.g = g; s.t = AT[r.in(0, 5)];
  s.ptr.assign(np, nullptr); s.size.assign(np, 0); s.split.assign(np, 0); s.mdl.resize(np); s.mark.resize(np);
  int style = (int)r.in(0, 3);
  for (int p : gs[g].mem) {
    long a = style == 0 ? 2048 : r.one_in(6) ? 0 : 16 * r.in(1, 200), b = style == 0 ? 2048 : 16 * r.in(0, 150);
    if (r.one_in(20)) a = 65536;
    s.split[p] = a; s.size[p] = a + b;
  }
  bool me_in = gs[g].has(me);
  std::vector<void *> pa(gs[g].mem.size() + 1, (void *)0x77);
  if (me_in) {
    opmark("malloc");
    ARMCI_Group h = gs[g].h;
    int rc;
    if (g == 0 && r.one_in(2)) rc = ARMCI_Malloc(pa.data(), s.size[me]);
    else rc = ARMCI_Malloc_group(pa.data(), s.size[me], &h);
    if (rc) violation("malloc:rc", "returned %d", rc);
    if (pa.back() != (void *)0x77) violation("malloc:overrun", "wrote past the pointer array");
  } else if (g == 0) r.one_in(2);
  // non-members learn the addresses for their transfers; the shared page carries them
  ARMCI_Barrier();
  if (me == gs[g].mem[0]) for (size_t k = 0; k < gs[g].mem.size(); k++) shm[k] = (long)pa[k];
  ARMCI_Barrier();
  for (size_t k = 0; k < gs[g].mem.size(); k++) s.ptr[gs[g].mem[k]] = me_in ? pa[k] : (void *)shm[k];
  ARMCI_Barrier();
  for (int p : gs[g].mem) {
    Rng f(r.next());
    s.mdl[p].resize(s.size[p]); s.mark[p].assign(s.size[p], 0);
    for (long i = 0; i < s.split[p]; i++) s.mdl[p][i] = (char)f.next();
    int e = es_of(s.t);
    for (long i = s.split[p]; i + e <= s.size[p]; i += e) rnd_elem(s.t, f, &s.mdl[p][i], false);
    if (p == me && s.size[p]) {
      if (!s.ptr[p]) violation("malloc:null", "own pointer is NULL for %ld bytes", s.size[p]);
      memcpy(s.ptr[p], s.mdl[p].data(), s.size[p]);
    }
  }
  segs.push_back(s);
  count("segments");
  ARMCI_Barrier();
}
static void verify_all(const char *when) {
  for (size_t k = 0; k < segs.size(); k++) {
    Seg &s = segs[k];
    char *m = (char *)s.ptr[me];
    for (long i = 0; i < s.size[me]; i++) if (m[i] != s.mdl[me][i]) {
      bool az = i >= s.split[me];
      std::string who;
      violation(az ? "contents:acc" : "contents:put", "%s: seg %zu byte %ld of %ld is %02x, should be %02x (type %d split %ld) %s", when, k, i, s.size[me], m[i] & 255, s.mdl[me][i] & 255, s.t, s.split[me], who.c_str());
    }
    count("bytes_compared", s.size[me]);
    std::fill(s.mark[me].begin(), s.mark[me].end(), 0);
    for (auto &x : s.mark) std::fill(x.begin(), x.end(), 0);
  }
}
static void transfers(Rng &r, long id, int nops) {
  std::vector<Op> ops;
  for (int k = 0; k < nops; k++) { Op o; if (gen_op(r, o)) ops.push_back(o); }
  int order = (int)r.in(0, 1);
  uint64_t ls = r.next();
  Rng lr(ls + 77 * me);
  std::vector<const Op *> mine;
  for (auto &o : ops) if (o.origin == me) mine.push_back(&o);
  if (order) lr.shuffle(mine);
  // gets see the memory before this epoch: they never overlap writes
  for (auto o : mine) {
    exec_op(*o, lr);
    if (lr.one_in(4)) wait_some(lr, false);
    if (pend.size() > 20) wait_some(lr, true);
    // a blocking put or accumulate is seen by a following get of the same process
    if (o->kind != GET && o->via == 0 && lr.one_in(3) && o->kind == PUT) {
      Bytes src(o->lspan + 64); fill_src(*o, src);
      auto &c = o->ch[lr.in(0, (long)o->ch.size() - 1)];
      Bytes got(c.n);
      opmark("get after put");
      ARMCI_Get((char *)segs[o->seg].ptr[o->target] + c.b, got.data(), (int)c.n, o->target);
      if (memcmp(got.data(), &src[c.a], c.n)) violation("get_after_put", "a get following a blocking %s put does not see it (%d->%d)", fname(o->form), me, o->target);
      count("get_after_put");
    }
  }
  wait_some(lr, true);
  for (auto &o : ops) model_op(o);
  bar(r);
  verify_all("after barrier");
  ARMCI_Barrier();
  (void)id;
}

static void rmw_section(Rng &r) {
  // cells: [0] fetch-add long, [1] fetch-add int, [2] swap long, [3] swap int on one target; the tickets go through shm
  int g = 0;
  size_t k0 = segs.size();
  Seg s; s.g = g;
  std::vector<void *> pa(np);
  opmark("rmw malloc");
  ARMCI_Malloc(pa.data(), 64);
  memset(pa[me], 0, 64);
  int T = (int)r.in(0, np - 1), per = (int)r.in(2, 40);
  long base = r.in(-5, 5), inc = r.one_in(4) ? r.in(-7, 7) : 1;
  if (inc == 0) inc = 3;
  if (me == T) { ((long *)pa[me])[0] = base; ((int *)pa[me])[2] = (int)base; ((long *)pa[me])[2] = -1; ((int *)pa[me])[6] = -1; }
  ARMCI_Barrier();
  char *c = (char *)pa[T];
  long *tk = (long *)shm;
  int stride = 64;
  VI trans;
  Rng lr(r.next() + me * 13);
  for (int q = 0; q < per; q++) {
    int which = (int)lr.in(0, 3);
    // each process does `per` operations on every cell in its own order
    for (int z = 0; z < 4; z++) {
      int w = (which + z) % 4;
      long idx = ((long)w * np + me) * stride + q;
      opmark("rmw %d", w);
      int rc = 0;
      if (w == 0) { long v = 99; rc = ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &v, c, (int)inc, T); tk[idx] = v; }
      if (w == 1) { int v = 99; rc = ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &v, c + 8, (int)inc, T); tk[idx] = v; }
      if (w == 2) { long v = (long)me * 1000000 + q + (1L << 40); rc = ARMCI_Rmw(ARMCI_SWAP_LONG, &v, c + 16, 0, T); tk[idx] = v; }
      if (w == 3) { int v = me * 100000 + q; rc = ARMCI_Rmw(ARMCI_SWAP, &v, c + 24, 0, T); tk[idx] = v; }
      if (rc) violation("rmw:rc", "returned %d", rc);
      count("rmws");
    }
    if (lr.one_in(5)) usleep(lr.in(0, 200));
  }
  ARMCI_Barrier();
  // every process checks all tickets
  for (int w = 0; w < 2; w++) {
    std::vector<long> t;
    for (int p = 0; p < np; p++) for (int q = 0; q < per; q++) t.push_back(tk[((long)w * np + p) * stride + q]);
    for (int p = 0; p < np; p++) for (int q = 1; q < per; q++) { // a process's own tickets move in one direction
      long a = tk[((long)w * np + p) * stride + q - 1], b = tk[((long)w * np + p) * stride + q];
      if ((inc > 0) != (b > a)) violation("rmw:order", "process %d drew %ld then %ld", p, a, b);
    }
    std::sort(t.begin(), t.end());
    long lo = inc > 0 ? base : base + inc * (long)(t.size() - 1), st = inc > 0 ? inc : -inc;
    for (size_t i = 0; i < t.size(); i++) if (t[i] != lo + (long)i * st) violation("rmw:tickets", "%s: sorted ticket %zu is %ld, should be %ld", w ? "int" : "long", i, t[i], lo + (long)i * st);
    if (me == T) {
      long fin = base + inc * (long)t.size(), v = w ? (long)((int *)pa[me])[2] : ((long *)pa[me])[0];
      if (v != fin) violation("rmw:final", "%s counter is %ld, should be %ld", w ? "int" : "long", v, fin);
    }
  }
  for (int w = 2; w < 4; w++) {
    std::multiset<long> out, in;
    for (int p = 0; p < np; p++) for (int q = 0; q < per; q++) { out.insert(tk[((long)w * np + p) * stride + q]); in.insert(w == 2 ? (long)p * 1000000 + q + (1L << 40) : (long)p * 100000 + q); }
    long fin;
    if (w == 2) fin = ARMCI_GetValueLong(c + 16, T); else fin = ARMCI_GetValueInt(c + 24, T);
    out.insert(fin); in.insert(-1);
    if (out != in) violation("rmw:swap", "%s: values swapped out and the final one are not those swapped in", w == 2 ? "long" : "int");
  }
  ARMCI_Barrier();
  opmark("rmw free");
  ARMCI_Free(pa[me]);
  (void)k0;
}
#ifndef PORT_MPI3
static void mutex_section(Rng &r) {
  VI nm(np);
  int tot = 0;
  for (int p = 0; p < np; p++) { nm[p] = (int)(r.one_in(3) ? 0 : r.in(1, 3)); tot += nm[p]; }
  if (!tot) nm[0] = 1;
  std::vector<void *> pa(np);
  ARMCI_Malloc(pa.data(), 8 * 16);
  memset(pa[me], 0, 8 * 16);
  if (me == 0) for (int i = 0; i < 4096; i++) shm[i] = 0;
  opmark("create_mutexes");
  if (ARMCI_Create_mutexes(nm[me])) violation("mutex:create", "failed");
  ARMCI_Barrier();
  Rng lr(r.next() + me);
  int per = (int)r.in(3, 25);
  int hot = (int)r.in(0, 2);
  std::vector<long> done(np * 4, 0);
  for (int q = 0; q < per; q++) {
    int h, m;
    h = hot ? (int)lr.in(0, std::min(np - 1, hot)) : (int)lr.in(0, np - 1);
    while (!nm[h]) h = (h + 1) % np;
    m = (int)lr.in(0, nm[h] - 1);
    opmark("lock %d %d", m, h);
    ARMCI_Lock(m, h);
    volatile long *own = &shm[(h * 4 + m) * 8];
    if (__sync_lock_test_and_set(own, me + 1)) violation("mutex:excluded", "mutex %d of process %d is held by process %ld and %d", m, h, (long)*own - 1, me);
    char *cell = (char *)pa[(h + 1) % np] + 8 * m;
    long v = ARMCI_GetValueLong(cell, (h + 1) % np);
    if (lr.one_in(3)) usleep(lr.in(0, 300));
    v++;
    if (lr.one_in(2)) ARMCI_PutValueLong(v, cell, (h + 1) % np); else ARMCI_Put(&v, cell, 8, (h + 1) % np);
    ARMCI_Fence((h + 1) % np);
    __sync_synchronize();
    *own = 0;
    __sync_fetch_and_add(&shm[2048 + h * 4 + m], 1);
    opmark("unlock %d %d", m, h);
    ARMCI_Unlock(m, h);
    count("critical_sections");
  }
  ARMCI_Barrier();
  for (int h = 0; h < np; h++) for (int m = 0; m < nm[h]; m++) if ((h + 1) % np == me) {
    long v = ((long *)pa[me])[m];
    if (v != shm[2048 + h * 4 + m]) violation("mutex:lost", "counter under mutex %d of %d is %ld after %ld critical sections", m, h, v, (long)shm[2048 + h * 4 + m]);
  }
  ARMCI_Barrier();
  opmark("destroy_mutexes");
  if (ARMCI_Destroy_mutexes()) violation("mutex:destroy", "failed");
  ARMCI_Free(pa[me]);
}
#endif
static void fence_section(Rng &r) {
  // writer W fills a block at target T with several operations, fences, raises a flag out of band; readers get the block
  int W = (int)r.in(0, np - 1), T = (int)r.in(0, np - 1), rounds = (int)r.in(2, 6);
  int kind = (int)r.in(0, 3);
  std::vector<void *> pa(np);
  const long N = 4096;
  ARMCI_Malloc(pa.data(), N);
  memset(pa[me], 0, N);
  if (me == 0) for (int i = 0; i < 64; i++) shm[i] = 0;
  ARMCI_Barrier();
  long sum = 0;
  uint64_t ls = r.next();
  for (int q = 1; q <= rounds; q++) {
    int pieces = (int)r.in(1, 12), what = (int)r.in(0, 2);
    long one = 1;
    sum += what == 1 ? q : 0;
    if (me == W) {
      std::vector<long> b(N / 8);
      opmark("fence writer");
      for (int k = 0; k < pieces; k++) {
        long lo = N / 8 * k / pieces, hi = N / 8 * (k + 1) / pieces;
        armci_hdl_t h;
        for (auto &x : b) x = what == 1 ? q : q * 1000;
        if (hi == lo) continue;
        if (what == 0) ARMCI_Put(&b[0], (char *)pa[T] + lo * 8, (int)(hi - lo) * 8, T);
        else if (what == 1) ARMCI_Acc(ARMCI_ACC_LNG, &one, &b[0], (char *)pa[T] + lo * 8, (int)(hi - lo) * 8, T);
        else {
          int ss[1] = {8}, ds[1] = {8 * (int)(hi - lo > 1 ? 2 : 1)}, c2[2] = {8, (int)(hi - lo + 1) / 2};
          ARMCI_NbPutS(&b[0], ss, (char *)pa[T] + lo * 8, ds, c2, 1, T, &h);
          ARMCI_Wait(&h);
          if (hi - lo > 1) { c2[1] = (int)(hi - lo) / 2; ARMCI_PutS(&b[0], ss, (char *)pa[T] + lo * 8 + 8, ds, c2, 1, T); }
        }
      }
      opmark("fence");
      if (kind == 0) ARMCI_Fence(T);
      else if (kind == 1) ARMCI_AllFence();
      else if (kind == 2) comex_fence_proc(T, 0);
      else comex_fence_all(0);
      __sync_synchronize();
      shm[0] = q;
      count("fences");
    }
#ifdef PORT_TS
    if (me == T && me != W) { } else
#endif
    if (me != W) {
      opmark("fence reader");
      while (shm[0] < q) ARMCI_GetValueLong(pa[me], me); // polls and makes progress
      std::vector<long> b(N / 8, -1);
      if (me == T && (ls + q) % 2) memcpy(b.data(), pa[T], N); else ARMCI_Get(pa[T], b.data(), N, T);
      for (long i = 0; i < N / 8; i++) {
        long want = what == 1 ? -1 : q * 1000;
        if (want >= 0 && b[i] != want) violation("fence:put", "element %ld is %ld after the fence, should be %ld", i, b[i], want);
        if (what == 1 && i && b[i] - b[i - 1]) violation("fence:acc", "element %ld is %ld and its neighbour %ld after the fence", i, b[i], b[i - 1]);
      }
      count("fence_reads");
    }
    ARMCI_Barrier();
  }
  ARMCI_Free(pa[me]);
}

template <class T> static T gop_ref(const std::string &op, const std::vector<T> &v) {
  T x = v[0];
  auto ab = [](T a) { return a < 0 ? (T)-a : a; };
  if (op.substr(0, 3) == "abs") x = ab(x);
  for (size_t i = 1; i < v.size(); i++) {
    T y = v[i];
    if (op == "+") x = (T)(x + y); else if (op == "*") x = (T)(x * y);
    else if (op == "max") x = std::max(x, y); else if (op == "min") x = std::min(x, y);
    else if (op == "absmax") x = std::max(x, ab(y)); else if (op == "absmin") x = std::min(x, ab(y));
    else if (op == "or") x = (T)((long)x | (long)y);
  }
  return x;
}
template <class T> static void gop_one(Rng &r, int type, const Grp &g, int how) {
  std::vector<std::string> ops = {"+", "*", "max", "min", "absmax", "absmin"};
  if (type != ARMCI_FLOAT && type != ARMCI_DOUBLE) ops.push_back("or");
  std::string op = r.pick(ops);
  int n = (int)r.in(1, r.one_in(6) ? 5000 : 20);
  std::vector<std::vector<T>> x(g.mem.size(), std::vector<T>(n));
  for (auto &v : x) for (auto &e : v) e = op == "*" ? (T)r.in(-2, 3) : (T)r.in(-1000, 1000);
  int k = g.rank(me);
  if (k < 0) return;
  std::vector<T> v = x[k];
  v.push_back((T)77);
  ARMCI_Group h = g.h;
  char o[8]; strcpy(o, op.c_str());
  opmark("gop %s type %d n %d how %d", o, type, n, how);
  if (how == 0) { // default group
    if (type == ARMCI_INT) armci_msg_igop((int *)v.data(), n, o);
    else if (type == ARMCI_LONG) armci_msg_lgop((long *)v.data(), n, o);
    else if (type == ARMCI_LONG_LONG) armci_msg_llgop((long long *)v.data(), n, o);
    else if (type == ARMCI_FLOAT) armci_msg_fgop((float *)v.data(), n, o);
    else armci_msg_dgop((double *)v.data(), n, o);
  } else if (how == 1) {
    if (type == ARMCI_INT) armci_msg_group_igop((int *)v.data(), n, o, &h);
    else if (type == ARMCI_LONG) armci_msg_group_lgop((long *)v.data(), n, o, &h);
    else if (type == ARMCI_LONG_LONG) armci_msg_group_llgop((long long *)v.data(), n, o, &h);
    else if (type == ARMCI_FLOAT) armci_msg_group_fgop((float *)v.data(), n, o, &h);
    else armci_msg_group_dgop((double *)v.data(), n, o, &h);
  } else if (how == 2) armci_msg_group_gop_scope(SCOPE_ALL, v.data(), n, o, type, &h);
  else if (how == 3) armci_msg_gop_scope(SCOPE_ALL, v.data(), n, o, type);
  else armci_msg_reduce(v.data(), n, o, type);
  for (int i = 0; i < n; i++) {
    std::vector<T> c;
    for (auto &y : x) c.push_back(y[i]);
    T want = gop_ref<T>(op, c);
    if (v[i] != want) violation("gop:" + op, "type %d element %d is %g, should be %g (group of %zu, how %d)", type, i, (double)v[i], (double)want, g.mem.size(), how);
  }
  if (v[n] != (T)77) violation("gop:overrun", "wrote past the end");
  count("gops");
}
static void gop_any(Rng &r, const Grp &g, int how) {
  switch (r.in(0, 4)) {
  case 0: gop_one<int>(r, ARMCI_INT, g, how); break;
  case 1: gop_one<long>(r, ARMCI_LONG, g, how); break;
  case 2: gop_one<long long>(r, ARMCI_LONG_LONG, g, how); break;
  case 3: gop_one<float>(r, ARMCI_FLOAT, g, how); break;
  case 4: gop_one<double>(r, ARMCI_DOUBLE, g, how); break;
  }
}
static void bcast_any(Rng &r, const Grp &g, int how) {
  int n = (int)r.in(1, r.one_in(5) ? 40000 : 64), root = (int)r.in(0, (long)g.mem.size() - 1);
  uint64_t s = r.next();
  if (!g.has(me)) return;
  Bytes b(n + 1), want(n);
  Rng a(s), c(s + me + 1);
  for (auto &x : want) x = (char)a.next();
  for (auto &x : b) x = (char)c.next();
  char last = b[n];
  if (g.rank(me) == root) memcpy(b.data(), want.data(), n);
  ARMCI_Group h = g.h;
  opmark("bcast how %d", how);
  if (how == 0) armci_msg_bcast(b.data(), n, root);
  else if (how == 1) armci_msg_brdcst(b.data(), n, root);
  else if (how == 2) armci_msg_bcast_scope(SCOPE_ALL, b.data(), n, root);
  else armci_msg_group_bcast_scope(SCOPE_ALL, b.data(), n, g.mem[root], &h); // takes the world rank of the root
  if (memcmp(b.data(), want.data(), n) || b[n] != last) violation("bcast", "wrong data (root %d, %d bytes, how %d)", root, n, how);
  count("bcasts");
}
static void sel_any(Rng &r, const Grp &g) { // default group
  static const int ty[] = {ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE};
  int t = ty[r.in(0, 4)];
  bool mx = r.one_in(2);
  int n = (int)g.mem.size(), any = 0;
  std::vector<double> v(n); VI con(n);
  for (int k = 0; k < n; k++) { v[k] = (double)r.in(-5, 5) * (r.one_in(3) ? 100000 : 1); con[k] = !r.one_in(4); any |= con[k]; }
  if (!any) con[r.in(0, n - 1)] = 1;
  int win = -1;
  for (int k = 0; k < n; k++) if (con[k] && (win < 0 || (mx ? v[k] > v[win] : v[k] < v[win]))) win = k;
  int k = g.rank(me);
  if (k < 0) return;
  struct { union { double d; int i; long l; long long ll; float f; } u; int tag[6]; } x, w;
  auto set = [&](decltype(x) &y, int q) {
    memset(&y, 0, sizeof y);
    if (t == ARMCI_INT) y.u.i = (int)v[q]; else if (t == ARMCI_LONG) y.u.l = (long)v[q]; else if (t == ARMCI_LONG_LONG) y.u.ll = (long long)v[q];
    else if (t == ARMCI_FLOAT) y.u.f = (float)v[q]; else y.u.d = v[q];
    for (int j = 0; j < 6; j++) y.tag[j] = q * 10 + j;
  };
  set(x, k); set(w, win);
  char o[4]; strcpy(o, mx ? "max" : "min");
  opmark("sel %s type %d", o, t);
  armci_msg_sel(&x, (int)sizeof x, o, t, con[k]);
  // ties: the lowest rank wins
  if (memcmp(&x, &w, sizeof x)) violation("sel", "%s type %d: selected process %d, should be %d", o, t, x.tag[0] / 10, win);
  count("sels");
}
static void messages(Rng &r) {
  // a random permutation, then a gather to one process with rcvany
  VI perm(np);
  for (int i = 0; i < np; i++) perm[i] = i;
  r.shuffle(perm);
  int n = (int)(r.one_in(4) ? r.in(10000, 200000) : r.in(0, 600)), tag = (int)r.in(1, 3000), nmsg = (int)r.in(1, 4);
  int to = perm[me], from = 0;
  for (int i = 0; i < np; i++) if (perm[i] == me) from = i;
  // blocking sends: even positions of each cycle would deadlock for large messages, so small first, large by rank order
  for (int k = 0; k < nmsg; k++) {
    Bytes b(n + 8), c(n + 9, 3), w(n);
    for (int i = 0; i < n; i++) { b[i] = (char)(me * 31 + i * 7 + k); w[i] = (char)(from * 31 + i * 7 + k); }
    int len = -1;
    opmark("snd/rcv %d bytes", n);
    if (to == me) { armci_msg_snd(tag, b.data(), n, to); armci_msg_rcv(tag, c.data(), n + 8, &len, from); }
    else {
      // break every cycle at its smallest member
      int low = me;
      for (int q = perm[me]; q != me; q = perm[q]) low = std::min(low, q);
      if (low == me) { armci_msg_rcv(tag, c.data(), n + 8, &len, from); armci_msg_snd(tag, b.data(), n, to); }
      else { armci_msg_snd(tag, b.data(), n, to); armci_msg_rcv(tag, c.data(), n + 8, &len, from); }
    }
    if (len != n) violation("msg:len", "message of %d bytes has length %d", n, len);
    if (n && memcmp(c.data(), w.data(), n)) violation("msg:data", "message %d from %d is wrong", k, from);
    for (int i = n; i < n + 9; i++) if (c[i] != 3) violation("msg:overrun", "byte %d", i);
    count("messages");
  }
  ARMCI_Barrier();
  int root = (int)r.in(0, np - 1);
  if (me == root) {
    VI got(np, 0);
    for (int k = 0; k < 2 * (np - 1); k++) {
      int b[4] = {0}, len = 0;
      int f = armci_msg_rcvany(tag + 1, b, sizeof b, &len);
      if (f < 0 || f >= np || f == me || b[0] != f || b[1] != got[f] || len != 12) violation("msg:any", "message %d of process %d reported from %d, length %d, sequence %d", got[f], b[0], f, len, b[1]);
      got[f]++;
      count("messages");
    }
  } else for (int k = 0; k < 2; k++) { int b[4] = {me, k, 5, 0}; armci_msg_snd(tag + 1, b, 12, root); }
  ARMCI_Barrier();
  int rt = -9, up = -9, l = -9, ri = -9;
  armci_msg_bintree(SCOPE_ALL, &rt, &up, &l, &ri);
  long *t = (long *)shm;
  t[me * 4] = up; t[me * 4 + 1] = l; t[me * 4 + 2] = ri; t[me * 4 + 3] = rt;
  ARMCI_Barrier();
  std::set<int> seen;
  std::function<void(int)> walk = [&](int p) {
    if (!seen.insert(p).second) violation("bintree", "process %d twice", p);
    for (int k = 1; k <= 2; k++) { long c = t[p * 4 + k]; if (c >= 0) { if (c >= np || t[c * 4] != p) violation("bintree", "child %ld of %d has parent %ld", c, p, t[c * 4]); walk((int)c); } }
  };
  walk((int)t[3]);
  if ((int)seen.size() != np || t[t[3] * 4] != -1) violation("bintree", "%zu of %d processes in the tree", seen.size(), np);
  if (armci_msg_me() != me || armci_msg_nproc() != np) violation("msg:me", "rank or size");
  ARMCI_Barrier();
}
static void check_group(const Grp &g) {
  if (!g.has(me)) return;
  ARMCI_Group h = g.h;
  int rk = -5, sz = -5;
  ARMCI_Group_rank(&h, &rk); ARMCI_Group_size(&h, &sz);
  if (rk != g.rank(me) || sz != (int)g.mem.size()) violation("group:rank", "rank %d size %d, should be %d of %zu", rk, sz, g.rank(me), g.mem.size());
  for (int k = 0; k < sz; k++) {
    if (ARMCI_Absolute_id(&h, k) != g.mem[k]) violation("group:absolute", "member %d is %d, should be %d", k, ARMCI_Absolute_id(&h, k), g.mem[k]);
  }
  count("group_checks");
}
static void make_groups(Rng &r) {
  ARMCI_Group w; ARMCI_Group_get_world(&w);
  Grp world; world.h = w;
  for (int p = 0; p < np; p++) world.mem.push_back(p);
  gs = {world};
  int n = (int)r.in(1, 4);
  for (int k = 0; k < n; k++) {
    int par = (int)r.in(0, (long)gs.size() - 1);
    VI l;
    for (size_t i = 0; i < gs[par].mem.size(); i++) if (!r.one_in(3)) l.push_back((int)i);
    if (l.empty()) l.push_back(0);
    if (r.one_in(4)) r.shuffle(l);
    // ranks of a new group follow the order given, as MPI_Group_incl does, or ascending: both are accepted below
    Grp g; g.depth = gs[par].depth + 1;
    for (int i : l) g.mem.push_back(gs[par].mem[i]);
    bool child = r.one_in(2);
    if (std::find(g.mem.begin(), g.mem.end(), me) != g.mem.end()) {
      ARMCI_Group ph = gs[par].h;
      opmark("group create");
      if (child) ARMCI_Group_create_child((int)l.size(), l.data(), &g.h, &ph);
      else { ARMCI_Group_set_default(&ph); ARMCI_Group_create((int)l.size(), l.data(), &g.h); ARMCI_Group_set_default(&w); }
    }
    gs.push_back(g);
    check_group(g);
    count("groups");
  }
}
static void group_section(Rng &r) {
  // disjoint groups work at the same time, through handles or as the default group
  int nrep = (int)r.in(1, 3);
  for (int q = 0; q < nrep; q++) {
    int k = (int)r.in(0, (long)gs.size() - 1);
    const Grp &g = gs[k];
    bool def = r.one_in(2);
    ARMCI_Group h = g.h, w = gs[0].h, d;
    if (def && g.has(me)) { ARMCI_Group_set_default(&h); ARMCI_Group_get_default(&d); if (d != h) violation("group:default", "not returned"); }
    int m = (int)r.in(1, 5);
    for (int j = 0; j < m; j++) {
      int what = (int)r.in(0, 4);
      int how = (int)r.in(0, 4);
      if (!def && (how == 0 || how >= 3)) how = 1 + how % 2;
      if (what <= 1) gop_any(r, g, how);
      else if (what == 2) bcast_any(r, g, def ? (int)r.in(0, 3) : 3);
      else if (what == 3 && def) sel_any(r, g);
      else { // barrier: nobody leaves before all have entered
        long base = 1000 + r.in(0, 1);
        long *c = (long *)shm + base;
        (void)c;
        if (g.has(me)) {
          opmark("group barrier");
          long t0 = __sync_add_and_fetch(&shm[8000 + k], 1);
          (void)t0;
          if (def) { if (r.one_in(2)) ARMCI_Barrier(); else armci_msg_barrier(); } else { r.one_in(2); armci_msg_group_barrier(&h); }
          long now = shm[8000 + k];
          if (now % (long)g.mem.size() && now < (long)g.mem.size()) violation("group:barrier", "left with %ld of %zu inside", now, g.mem.size());
          armci_msg_group_barrier(&h);
          if (g.rank(me) == 0) shm[8000 + k] = 0;
          armci_msg_group_barrier(&h);
          count("group_barriers");
        } else r.one_in(2);
      }
    }
    if (def && g.has(me)) {
      // memory of the default group
      opmark("default group malloc");
      std::vector<void *> pa(g.mem.size());
      ARMCI_Malloc(pa.data(), 256);
      int kk = g.rank(me), nx = (kk + 1) % (int)g.mem.size();
      memset(pa[kk], 0, 256);
      ARMCI_Barrier();
      Bytes b(256, (char)(kk + 1));
      ARMCI_Put(b.data(), pa[nx], 256, g.mem[nx]);
      ARMCI_Barrier();
      int pv = (kk + (int)g.mem.size() - 1) % (int)g.mem.size();
      for (int i = 0; i < 256; i++) if (((char *)pa[kk])[i] != (char)(pv + 1)) violation("group:put", "byte %d", i);
      ARMCI_Barrier();
      ARMCI_Free(pa[kk]);
      ARMCI_Group_set_default(&w);
      count("default_groups");
    }
  }
  ARMCI_Barrier();
}
static void run_case(long i) {
  Rng r(sub_seed(i));
  int ns = (int)r.in(1, 3), ne = (int)r.in(1, 3), nops = (int)r.in(3, 40), extra = (int)r.in(0, 5);
  begin_case(i, fmt("np=%d segs=%d epochs=%d ops=%d extra=%d r=%lx", np, ns, ne, nops, extra, (unsigned long)r.s));
  make_groups(r);
  segs.clear();
  for (int k = 0; k < ns; k++) make_seg(r, r.one_in(2) ? 0 : (int)r.in(0, (long)gs.size() - 1));
  for (int e = 0; e < ne; e++) transfers(r, i, nops);
  if (extra == 0) rmw_section(r);
  if (extra == 1) fence_section(r);
  if (extra == 2) messages(r);
#ifndef PORT_MPI3
  if (extra == 3) mutex_section(r);
#endif
  if (extra >= 4) group_section(r);
  verify_all("at the end");
  ARMCI_Barrier();
  VI ord;
  for (size_t k = 0; k < segs.size(); k++) ord.push_back((int)k);
  r.shuffle(ord);
  for (int k : ord) if (gs[segs[k].g].has(me)) {
    ARMCI_Group h = gs[segs[k].g].h;
    opmark("free");
    int rc = segs[k].g == 0 && r.one_in(1) ? ARMCI_Free(segs[k].ptr[me]) : ARMCI_Free_group(segs[k].ptr[me], &h);
    if (rc) violation("free:rc", "returned %d", rc);
  } else if (segs[k].g == 0) r.one_in(1);
  segs.clear();
  for (size_t k = gs.size(); k-- > 1;) if (gs[k].has(me)) { opmark("group free"); ARMCI_Group h = gs[k].h; ARMCI_Group_free(&h); }
  ARMCI_Barrier();
}
int main(int argc, char **argv) {
#if defined(PORT_MT) || defined(PORT_PT)
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
#else
  MPI_Init(&argc, &argv);
#endif
  ARMCI_Init();
  int rk = armci_msg_me(), sz = armci_msg_nproc();
  init(argc, argv, rk, sz);
  int pid = (int)getpid();
  armci_msg_bcast(&pid, sizeof pid, 0);
  std::string nm = outdir + fmt("/shm.%d", pid);
  if (me == 0) { int fd = open(nm.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, SHM)) harness_error("shm"); close(fd); }
  ARMCI_Barrier();
  int fd = open(nm.c_str(), O_RDWR);
  shm = (volatile long *)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (shm == MAP_FAILED) harness_error("shm mmap");
  close(fd);
  ARMCI_Barrier();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  finish();
  ARMCI_Finalize();
  MPI_Finalize();
  return 0;
}
