// save and load: the loaded graph equals the model
#include "common.h"
#include <unistd.h>
int main(int argc, char** argv) {
  Run R(argc, argv, "d_io");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 15485863 + i * 23 + P);
    GenOpt o;
    o.biggids = false;
    Model m = gen(r, P, o);
    if (r.coin(3)) {   // identifiers that use all 32 bits
      std::map<Gid, int> at;
      for (int v = 0; v < m.n(); v++) { Gid x; do x = (Gid)(r.next() >> 32); while (at.count(x)); m.gid[v] = x; at[x] = v; }
      m.at = at;
    }
    R.begin(i, "save and load of " + show(m));
    if (m.n() > 2 && m.t.size() > 1) R.nontrivial++;
    Ngraph* g = build(m, r, (int)r.below(2));
    std::ostringstream pre;
    if (r.coin()) pre << "sv" << i << "/g" << P;
    else pre << "g" << P << "x" << i;
    g->saveToFile(pre.str().c_str());
    std::string err = compare(g, m, CK_ALL);
    PCU_Barrier();
    bool into = r.coin(4);
    Ngraph* h = into ? g : createEmptyGraph();
    h->loadFromFile(pre.str().c_str());
    if (err.empty()) { err = compare(h, m, CK_ALL); if (!err.empty()) err = "after loading: " + err; }
    std::ostringstream fn;
    fn << pre.str() << "_" << me << ".bgd";
    unlink(fn.str().c_str());
    bool ok = R.check(err);
    if (!into) destroyGraph(h);
    destroyGraph(g);
    if (!ok) break;
  }
  if (!R.failed) {   // identifiers above 32 bits (the file format has 32-bit fields)
    Ngraph* g = createEmptyGraph();
    std::vector<Gid> v(1, ((Gid)1 << 33) + 5 + me), e, p;
    std::vector<wgt_t> w, ew;
    std::vector<lid_t> d;
    g->constructVerts(true, v, w);
    g->constructEdges(e, d, p, ew);
    std::unordered_map<Gid, part_t> ow;
    g->constructGhosts(ow);
    g->saveToFile("big");
    PCU_Barrier();
    Ngraph* h = createEmptyGraph();
    h->loadFromFile("big");
    VertexIterator* vi = h->begin();
    GraphVertex* x = h->iterate(vi);
    if (h->globalID(x) != v[0] && !me) printf("FINDING gid-over-32-bits vertex identifier %lld is loaded back as %lld\n", (ll)v[0], (ll)h->globalID(x));
    destroyGraph(h);
    destroyGraph(g);
  }
  return R.finish();
}
