// C03: non-blocking operations that were waited for (or tested complete) equal their blocking counterparts.
#include "gamon.h"
using namespace gm;

struct Op { int rank; char act; char kind; Patch p; VL pad; uint64_t vs; long a_re, a_im; bool w64; int id; }; // act: i(ssue) b(locking) w(ait) t(est)
struct Open { Op o; Buf *b; ga_nbhdl_t nb; std::vector<char> want; std::vector<char> keep; };

static int type; static int H;
static void nbcall(const Op &o, Buf &b, void *al, ga_nbhdl_t *nb) {
  Dims lo(o.p.lo), hi(o.p.hi), ld(b.ld);
  if (o.w64) { if (o.kind == 'p') NGA_NbPut64(H, lo.l, hi.l, b.ptr(), ld.l, nb); else if (o.kind == 'g') NGA_NbGet64(H, lo.l, hi.l, b.ptr(), ld.l, nb); else NGA_NbAcc64(H, lo.l, hi.l, b.ptr(), ld.l, al, nb); }
  else { if (o.kind == 'p') NGA_NbPut(H, lo.i, hi.i, b.ptr(), ld.i, nb); else if (o.kind == 'g') NGA_NbGet(H, lo.i, hi.i, b.ptr(), ld.i, nb); else NGA_NbAcc(H, lo.i, hi.i, b.ptr(), ld.i, al, nb); }
}
static const char *kn(char k) { return k == 'p' ? "put" : k == 'g' ? "get" : "acc"; }

static void finish_op(Open *x, const char *how, const Layout &L) {
  if (x->o.kind == 'g') {
    count("nb_elements_compared", x->o.p.size());
    if (x->want != x->b->raw) {
      size_t q = 0; while (x->want[q] == x->b->raw[q]) q++;
      violation(fmt("nbget-%s:%s", how, kname(L.kind)), "nbget %s: buffer byte %ld got %d want %d after %s", x->o.p.str().c_str(), (long)q - x->b->pre, x->b->raw[q], x->want[q], how);
    }
  } else {
    if (x->keep != x->b->raw) violation(fmt("nb-source-modified:%s", kn(x->o.kind)), "source buffer of nb%s %s changed before %s", kn(x->o.kind), x->o.p.str().c_str(), how);
    // completed: the source may be reused at once
    memset(x->b->raw.data(), 0x5B, x->b->raw.size());
  }
  delete x->b; delete x;
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 7);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    type = gr.pick(ALLTYPES);
    int nd = rnd_nd(gr);
    bool big = gr.one_in(10);
    VL dims;
    if (big) { nd = (int)gr.in(1, 2); dims = nd == 1 ? VL{gr.in(20000, 120000)} : VL{gr.in(80, 300), gr.in(80, 300)}; }
    else dims = rnd_dims(gr, nd, gr.one_in(2) ? 3000 : 300);
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    MArr m(type, dims);
    begin_case(i, fmt("%s %s dims=%s %s", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str()));
    opmark("create");
    int h = H = make_array(L, type, dims, g, "nb");
    fill_random(h, m, gr, g);
    std::vector<std::vector<char>> none;
    int epochs = (int)gr.in(2, 4);
    int nextid = 0;
    std::map<int, Open *> open;              // my open operations
    std::vector<std::set<int>> gopen(g.size());   // open ids of every rank
    std::map<int, Op> opof;
    int depthstyle = (int)gr.in(0, 3);
    int maxdepth = depthstyle == 0 ? 2 : depthstyle == 1 ? 8 : depthstyle == 2 ? 40 : 320;
    for (int e = 0; e < epochs; e++) {
      std::vector<int> wr(m.n, -1), rd(m.n, 0); std::vector<char> ac(m.n, 0);
      // gets held open across the synchronisation still read their patch
      for (auto &kv : opof) each(kv.second.p, [&](const VL &ix, long) { rd[m.lin(ix)] |= 1 << kv.second.rank; });
      std::vector<std::vector<char>> fl(g.size()); // in-flight marks per rank: bit1 put bit2 get bit4 acc
      for (auto &v : fl) v.assign(m.n, 0);
      auto mark = [&](const Op &o, bool on) {
        auto &v = fl[o.rank];
        if (on) each(o.p, [&](const VL &ix, long) { v[m.lin(ix)] |= o.kind == 'p' ? 1 : o.kind == 'g' ? 2 : 4; });
        else { // rebuild
          std::fill(v.begin(), v.end(), 0);
          for (auto &kv : opof) if (kv.second.rank == o.rank) each(kv.second.p, [&](const VL &ix, long) { v[m.lin(ix)] |= kv.second.kind == 'p' ? 1 : kv.second.kind == 'g' ? 2 : 4; });
        }
      };
      for (auto &kv : opof) mark(kv.second, true);
      int nops = (int)gr.in(2, maxdepth > 100 && m.n < 1500 ? 500 : 14) * (maxdepth > 100 && m.n < 1500 ? 1 : g.size());
      int style = (int)gr.in(0, 5), small = maxdepth > 10;
      int waitw = (int)gr.in(1, 4);
      for (int k = 0; k < nops; k++) {
        Op o;
        o.rank = maxdepth > 100 && !gr.one_in(4) ? e % g.size() : (int)gr.in(0, g.size() - 1);
        auto &mo = gopen[o.rank];
        if (!mo.empty() && (gr.in(0, 9) < waitw || (int)mo.size() >= maxdepth)) {
          o.act = gr.one_in(3) ? 't' : 'w';
          int w = (int)gr.in(0, 3); // oldest, newest, random
          auto it = mo.begin();
          if (w == 1) it = std::prev(mo.end()); else if (w > 1) std::advance(it, gr.in(0, (long)mo.size() - 1));
          o.id = *it;
        } else {
          o.act = gr.one_in(5) ? 'b' : 'i';
          o.kind = style == 0 ? 'p' : style == 1 ? 'a' : style == 2 ? 'g' : "pag"[gr.in(0, 2)];
          if (type == C_LONGLONG && o.kind == 'a') o.kind = 'p';
          o.p = rnd_patch(gr, dims);
          o.pad = rnd_pad(gr, nd); o.vs = gr.next(); o.w64 = gr.one_in(2);
          o.a_re = gr.one_in(3) ? 1 : gr.in(-4, 4); o.a_im = gr.one_in(2) ? 0 : gr.in(-3, 3);
          bool ok = false;
          for (int t = 0; t < 6 && !ok; t++) {
            if (t || small) { o.p = rnd_patch(gr, dims); if (t > 2 || small) for (int q = 0; q < nd; q++) o.p.hi[q] = std::min(o.p.hi[q], o.p.lo[q] + gr.in(0, 3)); }
            ok = true;
            each(o.p, [&](const VL &ix, long) {
              if (!ok) return;
              long l = m.lin(ix);
              int W = wr[l], R = rd[l] & ~(1 << o.rank), F = fl[o.rank][l];
              if (o.kind == 'p') ok = (W < 0 || W == o.rank) && !R && !ac[l] && !F;
              else if (o.kind == 'a') ok = W < 0 && !R && !rd[l] && !(F & 3);
              else ok = (W < 0 || W == o.rank) && !ac[l] && !(F & 5);
            });
          }
          if (!ok) continue;
          o.id = nextid++;
          each(o.p, [&](const VL &ix, long) { long l = m.lin(ix); if (o.kind == 'p') wr[l] = o.rank; else if (o.kind == 'a') ac[l] = 1; else rd[l] |= 1 << o.rank; });
        }
        bool mine = o.rank == g.rank;
        if (o.act == 'w' || o.act == 't') {
          bool done = true;
          if (mine) {
            Open *x = open[o.id];
            if (o.act == 't') {
              opmark("nbtest %s", kn(x->o.kind));
              bool c = false;
              for (int t = 0; t < 4 && !c; t++) c = NGA_NbTest(&x->nb) == 1;
              count(c ? "tests_complete" : "tests_pending");
              if (!c) { opmark("nbwait after test %s", kn(x->o.kind)); NGA_NbWait(&x->nb); }
              finish_op(x, c ? "test" : "test-wait", L);
            } else { opmark("nbwait %s", kn(x->o.kind)); NGA_NbWait(&x->nb); count("waits"); finish_op(x, "wait", L); }
            open.erase(o.id);
          }
          (void)done;
          Op fin = opof[o.id];
          opof.erase(o.id); gopen[o.rank].erase(o.id);
          mark(fin, false);
          continue;
        }
        Val al = ival(type, o.a_re, o.a_im);
        char ab[16]; store(type, ab, al);
        Rng vr(o.vs);
        Buf *b = (mine || o.kind != 'g') ? new Buf(type, o.p, o.pad) : nullptr;
        if (o.kind != 'g') each(o.p, [&](const VL &ix, long) { store(type, b->at(ix), rnd_val(type, vr, is_int(type) ? 0 : 1000)); });
        if (mine) {
          Open *x = new Open{o, b, 0, {}, {}};
          if (o.kind == 'g') {
            Buf w(type, o.p, o.pad);
            each(o.p, [&](const VL &ix, long) { memcpy(w.at(ix), m.at(m.lin(ix)), m.es); });
            x->want = w.raw;
          } else x->keep = b->raw;
          if (o.act == 'b') {
            opmark("blocking %s %s", kn(o.kind), o.p.str().c_str());
            if (o.kind == 'p') put(h, o.p, *b, o.w64); else if (o.kind == 'g') get(h, o.p, *b, o.w64); else acc(h, o.p, *b, ab, o.w64);
            count("blocking");
          } else {
            opmark("nb%s %s", kn(o.kind), o.p.str().c_str());
            nbcall(o, *b, ab, &x->nb);
            memset(ab, 0x77, sizeof ab); // alpha may be reused after the call returns
            count(std::string("nb") + kn(o.kind));
            open[o.id] = x;
            counters["max_outstanding"] = std::max(counters["max_outstanding"], (long)open.size());
          }
          if (o.kind != 'g') each(o.p, [&](const VL &ix, long) { long l = m.lin(ix); char *s = o.act == 'b' ? b->at(ix) : x->keep.data() + (b->at(ix) - b->raw.data());
            if (o.kind == 'p') memcpy(m.at(l), s, m.es); else m.set(l, vadd(type, m.get(l), vmul(type, al, load(type, s)))); });
          if (o.act == 'b') finish_op(x, "blocking", L);
        } else if (o.kind != 'g') {
          each(o.p, [&](const VL &ix, long) { long l = m.lin(ix); if (o.kind == 'p') memcpy(m.at(l), b->at(ix), m.es); else m.set(l, vadd(type, m.get(l), vmul(type, al, load(type, b->at(ix))))); });
          delete b;
        }
        if (o.act == 'i') { opof[o.id] = o; gopen[o.rank].insert(o.id); mark(o, true); }
      }
      // drain: everything but some gets is waited for before the synchronisation
      bool hold = e + 1 < epochs && gr.one_in(3);
      for (int q = 0; q < g.size(); q++) {
        std::vector<int> ids(gopen[q].begin(), gopen[q].end());
        gr.shuffle(ids);
        for (int id : ids) {
          if (hold && opof[id].kind == 'g' && gr.one_in(2)) { if (q == g.rank) count("held_over_sync"); continue; }
          if (q == g.rank) { Open *x = open[id]; opmark("drain wait %s", kn(x->o.kind)); NGA_NbWait(&x->nb); finish_op(x, "drain", L); open.erase(id); }
          gopen[q].erase(id); opof.erase(id);
        }
      }
      opmark("sync");
      gsync(g);
      if (g.rank == (int)gr.in(0, g.size() - 1)) check_all(h, m, fmt("nb-content:%s", kname(L.kind)), "after wait and sync");
      check_local(h, m, fmt("nb-local:%s", kname(L.kind)));
      gsync(g);
    }
    for (auto &kv : open) { opmark("final wait"); NGA_NbWait(&kv.second->nb); finish_op(kv.second, "final", L); }
    gsync(g);
    opmark("destroy");
    GA_Destroy(h);
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
