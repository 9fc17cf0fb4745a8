// C01: patch put/get/acc behave as the sequential array, for every layout, type, rank, group.
#include "gamon.h"
using namespace gm;

struct Op { int rank; char kind; Patch p; VL pad; uint64_t vs; long a_re, a_im; bool w64, local1; };

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  Group *gp = sp.my();
  if (gp) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int type = gr.pick(ALLTYPES), nd = rnd_nd(gr);
    bool big = gr.one_in(12);
    VL dims;
    if (big) {
      nd = (int)gr.in(1, 3);
      if (nd == 1) dims = {gr.in(60000, 250000)};
      else if (nd == 2) dims = {gr.in(100, 500), gr.in(100, 500)};
      else dims = {gr.in(20, 70), gr.in(20, 70), gr.in(20, 70)};
    } else dims = rnd_dims(gr, nd, 4000);
    LayoutOpt lo;
    // block-cyclic without an explicit processor grid and restricted arrays are world-group features
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    bool c64 = gr.one_in(2);
    MArr m(type, dims);
    begin_case(i, fmt("%s %s dims=%s %s c64=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), c64));
    opmark("create");
    int h = make_array(L, type, dims, g, "patch", c64);
    fill_random(h, m, gr, g);
    count(std::string("layout_") + kname(L.kind));
    int epochs = (int)gr.in(2, 4);
    for (int e = 0; e < epochs; e++) {
      std::vector<Op> ops;
      int style = (int)gr.in(0, 4); // 0 put 1 acc 2 get 3,4 mixed
      std::vector<std::pair<int, Patch>> wr, rd, ac;
      int nops = (int)gr.in(1, 4) * g.size();
      for (int k = 0; k < nops; k++) {
        Op o;
        o.rank = (int)gr.in(0, g.size() - 1);
        o.kind = style == 0 ? 'p' : style == 1 ? 'a' : style == 2 ? 'g' : "pag"[gr.in(0, 2)];
        if (o.kind == 'a' && type == C_LONGLONG) o.kind = 'p'; // accumulate is not defined for long long
        o.p = rnd_patch(gr, dims);
        o.pad = rnd_pad(gr, nd);
        o.vs = gr.next();
        o.a_re = gr.one_in(3) ? 1 : gr.in(-4, 4); o.a_im = gr.one_in(2) ? 0 : gr.in(-3, 3);
        o.w64 = gr.one_in(2);
        bool ok = false;
        for (int t = 0; t < 6 && !ok; t++) {
          if (t) { // shrink towards a small patch to find room
            o.p = rnd_patch(gr, dims);
            if (t > 2) for (int q = 0; q < nd; q++) o.p.hi[q] = std::min(o.p.hi[q], o.p.lo[q] + gr.in(0, 3));
          }
          auto clash = [&](std::vector<std::pair<int, Patch>> &v, bool same_too) { for (auto &x : v) if ((same_too || x.first != o.rank) && x.second.overlaps(o.p)) return true; return false; };
          if (o.kind == 'p') ok = !clash(wr, false) && !clash(rd, false) && !clash(ac, false);
          else if (o.kind == 'a') ok = !clash(wr, false) && !clash(rd, false);
          else ok = !clash(wr, false) && !clash(ac, false);
        }
        if (!ok) continue;
        (o.kind == 'p' ? wr : o.kind == 'a' ? ac : rd).push_back({o.rank, o.p});
        ops.push_back(o);
      }
      MArr before = m; // gets are conflict-free with other ranks; same rank sees its own order
      for (auto &o : ops) {
        bool mine = o.rank == g.rank;
        Rng vr(o.vs);
        if (o.kind == 'g') {
          if (mine) {
            Buf b(type, o.p, o.pad);
            opmark("get %s w64=%d", o.p.str().c_str(), o.w64);
            get(h, o.p, b, o.w64);
            long bad = 0; std::string first;
            each(o.p, [&](const VL &ix, long) {
              if (memcmp(b.at(ix), m.at(m.lin(ix)), m.es) && !bad++) { for (long x : ix) first += fmt("%ld,", x); first = "(" + first + ") got " + vstr(type, load(type, b.at(ix))) + " want " + vstr(type, m.get(m.lin(ix))); }
            });
            count("elements_compared", o.p.size());
            if (bad) violation(fmt("get-value:%s", kname(L.kind)), "get %s: %ld of %ld wrong, first %s", o.p.str().c_str(), bad, o.p.size(), first.c_str());
            long w;
            if (!b.frame_ok(&w)) violation(fmt("get-frame:%s", kname(L.kind)), "get %s wrote outside the requested patch of the buffer at byte %ld", o.p.str().c_str(), w);
            count("gets");
          }
          continue;
        }
        // values
        std::vector<Val> vals((size_t)o.p.size());
        for (auto &v : vals) v = rnd_val(type, vr);
        Val al = ival(type, o.a_re, o.a_im);
        if (mine) {
          Buf b(type, o.p, o.pad);
          each(o.p, [&](const VL &ix, long k) { store(type, b.at(ix), vals[k]); });
          std::vector<char> keep = b.raw;
          if (o.kind == 'p') { opmark("put %s w64=%d", o.p.str().c_str(), o.w64); put(h, o.p, b, o.w64); count("puts"); }
          else {
            char ab[16]; store(type, ab, al);
            opmark("acc %s w64=%d alpha=%ld,%ld", o.p.str().c_str(), o.w64, o.a_re, o.a_im);
            acc(h, o.p, b, ab, o.w64); count("accs");
            char ab2[16]; store(type, ab2, al);
            if (memcmp(ab, ab2, tsize(type))) violation("acc-alpha-modified", "acc modified its scale factor");
          }
          if (keep != b.raw) violation(fmt("%s-source-modified", o.kind == 'p' ? "put" : "acc"), "source buffer of %s changed", o.p.str().c_str());
        }
        each(o.p, [&](const VL &ix, long k) {
          long l = m.lin(ix);
          if (o.kind == 'p') m.set(l, vals[k]);
          else m.set(l, vadd(type, m.get(l), vmul(type, al, vals[k])));
        });
      }
      gsync(g);
      count("epochs");
      std::string key = fmt("content:%s", kname(L.kind));
      if (g.rank == (int)gr.in(0, g.size() - 1)) check_all(h, m, key, fmt("after epoch %d", e).c_str());
      else check_patch(h, m, rnd_patch(r = Rng(sub_seed(i, 7000 + me * 10 + e)), dims), key, fmt("after epoch %d", e).c_str(), e & 1);
      check_local(h, m, "local-" + key);
      gsync(g);
    }
    opmark("destroy");
    GA_Destroy(h);
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
