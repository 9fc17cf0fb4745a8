// C02: scatter/gather/scatter_acc, strided, periodic and field transfers act like the sequential array.
#include "gamon.h"
using namespace gm;

struct Elem { long lin; long off; }; // element index in the array, byte offset in the buffer
struct Op {
  int rank; char fam, kind; // fam: s(catter) t(strided) p(eriodic) f(ield) n(ormal); kind: p g a
  Patch p; VL skip, ext; std::vector<Elem> el; int var; // var: call variant
  uint64_t vs; long a_re, a_im; long foff = 0, fsize = 0, bufbytes = 0;
  std::string str() const {
    std::string s = fmt("%s%s var=%d n=%zu %s", fam == 's' ? "scat-" : fam == 't' ? "strided-" : fam == 'p' ? "periodic-" : fam == 'f' ? "field-" : "patch-",
               kind == 'p' ? "put" : kind == 'g' ? "get" : "acc", var, el.size(), fam == 's' ? "" : p.str().c_str());
    if (fam == 't') { s += " skip="; for (long x : skip) s += fmt("%ld,", x); }
    if (fam == 'f') s += fmt(" foff=%ld fsize=%ld", foff, fsize);
    s += " ext="; for (long x : ext) s += fmt("%ld,", x);
    return s;
  }
  const char *fname() const { return fam == 's' ? "scatter" : fam == 't' ? "strided" : fam == 'p' ? "periodic" : fam == 'f' ? "field" : "patch"; }
};
static long wrapi(long x, long d) { long r = x % d; return r < 0 ? r + d : r; }

static void call(const Op &o, int h, int nd, char *buf, void *alpha, const VL &dims) {
  Dims lo(o.p.lo), hi(o.p.hi), sk(o.skip);
  VL ldv; for (int k = 1; k < nd; k++) ldv.push_back(o.ext[k]);
  if (ldv.empty()) ldv.push_back(1);
  // C ordering: entry k is the extent of dimension k+1; a last entry the interface does not need
  Dims ld(ldv);
  int v = o.var;
  if (o.fam == 's') {
    int n = (int)o.el.size();
    std::vector<int> flat; std::vector<int64_t> flat64; std::vector<int *> pp; std::vector<int64_t *> pp64;
    for (auto &e : o.el) {
      VL ix(nd); long l = e.lin;
      for (int k = nd - 1; k >= 0; k--) { ix[k] = l % dims[k]; l /= dims[k]; }
      for (long x : ix) { flat.push_back((int)x); flat64.push_back(x); }
    }
    for (int k = 0; k < n; k++) { pp.push_back(&flat[k * nd]); pp64.push_back(&flat64[k * nd]); }
    if (o.kind == 'p') { if (v == 0) NGA_Scatter(h, buf, pp.data(), n); else if (v == 1) NGA_Scatter_flat(h, buf, flat.data(), n); else if (v == 2) NGA_Scatter64(h, buf, pp64.data(), n); else NGA_Scatter_flat64(h, buf, flat64.data(), n); }
    else if (o.kind == 'g') { if (v == 0) NGA_Gather(h, buf, pp.data(), n); else if (v == 1) NGA_Gather_flat(h, buf, flat.data(), n); else if (v == 2) NGA_Gather64(h, buf, pp64.data(), n); else NGA_Gather_flat64(h, buf, flat64.data(), n); }
    else { if (v == 0) NGA_Scatter_acc(h, buf, pp.data(), n, alpha); else if (v == 1) NGA_Scatter_acc_flat(h, buf, flat.data(), n, alpha); else if (v == 2) NGA_Scatter_acc64(h, buf, pp64.data(), n, alpha); else NGA_Scatter_acc_flat64(h, buf, flat64.data(), n, alpha); }
  } else if (o.fam == 't') {
    if (v & 1) { if (o.kind == 'p') NGA_Strided_put64(h, lo.l, hi.l, sk.l, buf, ld.l); else if (o.kind == 'g') NGA_Strided_get64(h, lo.l, hi.l, sk.l, buf, ld.l); else NGA_Strided_acc64(h, lo.l, hi.l, sk.l, buf, ld.l, alpha); }
    else { if (o.kind == 'p') NGA_Strided_put(h, lo.i, hi.i, sk.i, buf, ld.i); else if (o.kind == 'g') NGA_Strided_get(h, lo.i, hi.i, sk.i, buf, ld.i); else NGA_Strided_acc(h, lo.i, hi.i, sk.i, buf, ld.i, alpha); }
  } else if (o.fam == 'p') {
    if (v & 1) { if (o.kind == 'p') NGA_Periodic_put64(h, lo.l, hi.l, buf, ld.l); else if (o.kind == 'g') NGA_Periodic_get64(h, lo.l, hi.l, buf, ld.l); else NGA_Periodic_acc64(h, lo.l, hi.l, buf, ld.l, alpha); }
    else { if (o.kind == 'p') NGA_Periodic_put(h, lo.i, hi.i, buf, ld.i); else if (o.kind == 'g') NGA_Periodic_get(h, lo.i, hi.i, buf, ld.i); else NGA_Periodic_acc(h, lo.i, hi.i, buf, ld.i, alpha); }
  } else if (o.fam == 'f') {
    if (v & 1) {
      ga_nbhdl_t nb;
      if (o.kind == 'p') NGA_Nbput_field(h, lo.i, hi.i, (int)o.foff, (int)o.fsize, buf, ld.i, &nb);
      else NGA_Nbget_field(h, lo.i, hi.i, (int)o.foff, (int)o.fsize, buf, ld.i, &nb);
      NGA_NbWait(&nb);
    }
    else if (o.kind == 'p') NGA_Put_field(h, lo.i, hi.i, (int)o.foff, (int)o.fsize, buf, ld.i);
    else NGA_Get_field(h, lo.i, hi.i, (int)o.foff, (int)o.fsize, buf, ld.i);
  } else {
    if (o.kind == 'p') NGA_Put(h, lo.i, hi.i, buf, ld.i); else if (o.kind == 'g') NGA_Get(h, lo.i, hi.i, buf, ld.i); else NGA_Acc(h, lo.i, hi.i, buf, ld.i, alpha);
  }
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    bool user = gr.one_in(4);
    int type = gr.pick(ALLTYPES), nd = rnd_nd(gr);
    if (mode == "nofield") user = false;
    VL dims = rnd_dims(gr, nd, gr.one_in(8) ? 20000 : 3000);
    static std::map<long, int> utypes; // every rank registers in the same order: world cases only
    long es = 0;
    int utype = 0;
    if (user) {
      es = gr.in(1, 12) * (gr.one_in(3) ? 1 : 4);
      opmark("register %ld", es);
      utype = NGA_Register_type(es);
      if (utype < 0) violation("register-type", "NGA_Register_type(%ld) failed", es);
    }
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    MArr m;
    if (user) { m.type = C_INT; m.es = es; m.dims = dims; m.n = 1; for (long d : dims) m.n *= d; m.d.assign(m.n * es, 0); }
    else m = MArr(type, dims);
    begin_case(i, fmt("%s %s dims=%s %s", g.desc.c_str(), user ? fmt("user%ld", es).c_str() : tname(type), dimstr(dims).c_str(), L.str().c_str()));
    opmark("create");
    int h = make_array(L, user ? utype : type, dims, g, "scat");
    Patch w = whole(dims);
    for (long k = 0; k < m.n; k++) { if (user) for (long b = 0; b < es; b++) m.at(k)[b] = (char)gr.next(); else m.set(k, rnd_val(type, gr)); }
    if (g.rank == 0) {
      Dims wl(w.lo), wh(w.hi); VL ldv(dims.begin() + 1, dims.end()); if (ldv.empty()) ldv.push_back(1); Dims ld(ldv);
      opmark("fill"); std::vector<char> c = m.d; NGA_Put(h, wl.i, wh.i, c.data(), ld.i);
    }
    gsync(g);
    int epochs = (int)gr.in(2, 4);
    for (int e = 0; e < epochs; e++) {
      std::vector<int> wr(m.n, -1), rd(m.n, 0); std::vector<char> ac(m.n, 0);
      std::vector<Op> ops;
      int nops = (int)gr.in(1, 4) * g.size();
      int style = (int)gr.in(0, 5);
      bool alloc = gr.one_in(4) && !user;
      long maxn = 1;
      for (int k = 0; k < nops; k++) {
        Op o;
        o.rank = (int)gr.in(0, g.size() - 1);
        o.kind = style == 0 ? 'p' : style == 1 ? 'a' : style == 2 ? 'g' : "pag"[gr.in(0, 2)];
        o.fam = user ? (gr.one_in(4) ? 'n' : gr.one_in(4) ? 't' : 'f') : "sstpn"[gr.in(0, 4)];
        if (user && o.fam == 'n' && gr.one_in(2)) o.fam = 's';
        if ((user || type == C_LONGLONG) && o.kind == 'a') o.kind = 'p';
        o.var = (int)gr.in(0, 3); o.vs = gr.next();
        o.a_re = gr.one_in(3) ? 1 : gr.in(-4, 4); o.a_im = gr.one_in(2) ? 0 : gr.in(-3, 3);
        long bes = m.es;
        VL pad = rnd_pad(gr, nd);
        if (o.fam == 's') {
          long n = gr.one_in(8) ? gr.in(0, std::min(m.n, 600L)) : gr.in(1, std::min(m.n, 40L));
          if (n == 0) n = 1;
          std::vector<long> pool;
          if (o.kind == 'p') { std::set<long> s; for (long q = 0; q < n; q++) s.insert(gr.in(0, m.n - 1)); pool.assign(s.begin(), s.end()); gr.shuffle(pool); }
          else { long span = gr.one_in(3) ? std::min(m.n, 3L) : m.n; long b0 = gr.in(0, m.n - span); for (long q = 0; q < n; q++) pool.push_back(b0 + gr.in(0, span - 1)); }
          for (size_t q = 0; q < pool.size(); q++) o.el.push_back({pool[q], (long)q * bes});
          maxn = std::max(maxn, (long)pool.size());
          o.p = whole(VL(nd, 1)); o.skip.assign(nd, 1); o.ext.assign(nd, 1);
          o.bufbytes = (long)pool.size() * bes;
        } else {
          o.p = rnd_patch(gr, dims);
          o.skip.assign(nd, 1);
          if (o.fam == 't') for (auto &x : o.skip) x = gr.one_in(3) ? 1 : gr.in(1, 5);
          if (o.fam == 'p') for (int q = 0; q < nd; q++) {
            long width = gr.in(1, gr.one_in(4) && o.kind != 'p' ? 2 * dims[q] : dims[q]);
            if (nd > 3) width = std::min(width, 4L);
            long l = gr.one_in(3) ? gr.in(-3 * dims[q] - 2, 3 * dims[q] + 2) : gr.in(-dims[q] + 1, dims[q] - 1);
            if (width > dims[q] && mode != "wide") l = gr.in(1 - dims[q], 0); // keeps the request within one period on each side
            o.p.lo[q] = l; o.p.hi[q] = l + width - 1;
          }
          if (o.fam == 'f') {
            // the field must be a proper part of the element for the field path
            o.fsize = gr.in(1, es); o.foff = gr.in(0, es - o.fsize); bes = o.fsize;
            if (o.kind == 'a') o.kind = 'p';
          }
          o.ext.resize(nd);
          for (int q = 0; q < nd; q++) o.ext[q] = (o.p.hi[q] - o.p.lo[q]) / o.skip[q] + 1 + (q ? pad[q] : 0);
          Patch cnt; // iteration space in buffer coordinates
          for (int q = 0; q < nd; q++) { cnt.lo.push_back(0); cnt.hi.push_back((o.p.hi[q] - o.p.lo[q]) / o.skip[q]); }
          long last = 0;
          if (cnt.size() > 60000) continue;
          each(cnt, [&](const VL &c, long) {
            long lin = 0, off = 0;
            for (int q = 0; q < nd; q++) {
              long x = o.p.lo[q] + c[q] * o.skip[q];
              lin = lin * dims[q] + (o.fam == 'p' ? wrapi(x, dims[q]) : x);
              off = off * o.ext[q] + c[q];
            }
            o.el.push_back({lin, off * bes}); last = std::max(last, off);
          });
          o.bufbytes = (last + 1) * bes;
        }
        bool ok = true;
        for (auto &x : o.el) {
          int W = wr[x.lin], R = rd[x.lin];
          int other = R & ~(1 << o.rank);
          if (o.kind == 'p') ok = (W < 0 || W == o.rank) && !other && !ac[x.lin];
          else if (o.kind == 'a') ok = W < 0 && !R;
          else ok = (W < 0 || W == o.rank) && !ac[x.lin];
          if (!ok) break;
        }
        // fields of one element written by different ranks: not attempted in one epoch
        if (!ok) continue;
        for (auto &x : o.el) { if (o.kind == 'p') wr[x.lin] = o.rank; else if (o.kind == 'a') ac[x.lin] = 1; else rd[x.lin] |= 1 << o.rank; }
        ops.push_back(o);
      }
      if (alloc) { opmark("alloc_gatscat_buf"); NGA_Alloc_gatscat_buf((int)maxn); count("prealloc_epochs"); }
      for (auto &o : ops) {
        bool mine = o.rank == g.rank;
        long bes = o.fam == 'f' ? o.fsize : m.es;
        Rng vr(o.vs);
        const long pre = 64;
        std::vector<char> buf;
        if (o.kind == 'g' && !mine) continue;
        auto canary = [&](size_t q) { return (char)(0xA0 + q % 13); };
        buf.resize(pre + o.bufbytes + 64);
        for (size_t q = 0; q < buf.size(); q++) buf[q] = canary(q);
        Val al = ival(type, o.a_re, o.a_im);
        char ab[16]; store(type, ab, al);
        if (o.kind != 'g') for (auto &x : o.el) {
          if (user) for (long b = 0; b < bes; b++) buf[pre + x.off + b] = (char)vr.next();
          else store(type, &buf[pre + x.off], rnd_val(type, vr));
        }
        std::vector<char> keep;
        if (verbose && g.rank==0) fprintf(stderr,"e%d rank %d %s\n",e,o.rank,o.str().c_str());
        if (mine) {
          keep = buf;
          opmark("%s", o.str().c_str());
          call(o, h, nd, buf.data() + pre, ab, dims);
          count(std::string(o.fname()) + "_" + (o.kind == 'p' ? "put" : o.kind == 'g' ? "get" : "acc"));
          count("elements_moved", (long)o.el.size());
        }
        if (o.kind == 'g') {
          std::vector<char> want = keep;
          for (auto &x : o.el) memcpy(&want[pre + x.off], m.at(x.lin) + o.foff, bes);
          count("elements_compared", (long)o.el.size());
          if (want != buf) {
            size_t q = 0; while (want[q] == buf[q]) q++;
            bool in = false; for (auto &x : o.el) if ((long)q - pre >= x.off && (long)q - pre < x.off + bes) in = true;
            violation(fmt("%s-get-%s:%s", o.fname(), in ? "value" : "frame", kname(L.kind)), "%s: buffer byte %ld got %d want %d", o.str().c_str(), (long)q - pre, buf[q], want[q]);
          }
          continue;
        }
        if (mine && keep != buf) violation(fmt("%s-source-modified", o.fname()), "%s changed its source buffer", o.str().c_str());
        for (auto &x : o.el) {
          if (o.kind == 'p') memcpy(m.at(x.lin) + o.foff, &buf[pre + x.off], bes);
          else m.set(x.lin, vadd(type, m.get(x.lin), vmul(type, al, load(type, &buf[pre + x.off]))));
        }
      }
      opmark("epoch sync");
      gsync(g);
      if (alloc) { opmark("free_gatscat_buf"); NGA_Free_gatscat_buf(); }
      count("epochs");
      { // verification: whole-array get by some rank, gather elsewhere
        std::vector<char> got(m.n * m.es, 0);
        Dims wl(w.lo), wh(w.hi); VL ldv(dims.begin() + 1, dims.end()); if (ldv.empty()) ldv.push_back(1); Dims ld(ldv);
        if (g.rank == (int)gr.in(0, g.size() - 1)) {
          opmark("verify");
          NGA_Get(h, wl.i, wh.i, got.data(), ld.i);
          count("elements_compared", m.n);
          for (long k = 0; k < m.n; k++) if (memcmp(&got[k * m.es], m.at(k), m.es)) {
            std::string fams; for (auto &o : ops) for (auto &x : o.el) if (x.lin == k && o.kind != 'g') { fams += std::string(o.fname()) + "-" + o.kind + " "; break; }
            std::string last = "none"; for (auto &o : ops) for (auto &x : o.el) if (x.lin == k && o.kind != 'g') last = o.fname();
            violation(fmt("content:%s:%s", last.c_str(), kname(L.kind)), "element %ld wrong after epoch %d; written by [%s]; got %s want %s", k, e, fams.c_str(),
                      user ? "" : vstr(type, load(type, &got[k * m.es])).c_str(), user ? "" : vstr(type, m.get(k)).c_str());
          }
        }
      }
      if (!user) check_local(h, m, fmt("local-content:%s", kname(L.kind)));
      gsync(g);
    }
    opmark("destroy");
    GA_Destroy(h);
    if (user) { opmark("deregister"); NGA_Deregister_type(utype); }
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
