// construction, access, traversal, residence: the graph equals the model it was built from
#include "common.h"
int main(int argc, char** argv) {
  Run R(argc, argv, "d_graph");
  int what = argc > 4 ? atoi(argv[4]) : CK_ALL;
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 1000003 + i * 31 + PCU_Comm_Peers() * 7);
    GenOpt o;
    Model m = gen(r, PCU_Comm_Peers(), o);
    int api = (int)r.below(2);
    std::ostringstream d;
    d << (api ? "array" : "vector") << " api, " << show(m);
    R.begin(i, d.str());
    if (m.n() > 2 && m.t.size() > 1) R.nontrivial++;
    Ngraph* g = build(m, r, api);
    int w = what;
    bool ok = R.check(compare(g, m, w));
    if (ok && r.coin(4)) {   // the same object built again from other input
      Model m2 = gen(r, PCU_Comm_Peers(), o);
      std::ostringstream d2;
      d2 << d.str() << " then rebuilt as " << show(m2);
      R.begin(i, d2.str());
      build(m2, r, (int)r.below(2), true, g);
      ok = R.check(compare(g, m2, w));
      m = m2;
    }
    if (ok && r.coin(3)) {   // the edges of the last type removed, then listed again under other ids
      MType& y = m.t.back();
      std::ostringstream d3;
      d3 << d.str() << " then the last type replaced";
      R.begin(i, d3.str());
      g->removeEdges((etype)m.t.size() - 1);
      Model m3 = m;
      m3.t.pop_back();
      if (g->numEdgeTypes() != (int)m3.t.size()) R.check("numEdgeTypes after removeEdges");
      Gid off = r.range(1, 3);
      Gid top = 0;
      for (size_t e = 0; e < y.e.size(); e++) top = std::max(top, y.e[e].gid);
      for (size_t e = 0; e < y.e.size(); e++) { y.e[e].gid = r.coin() ? top + off + (Gid)e : y.e[e].gid; y.e[e].w = y.weighted ? y.e[e].w + 1 : 1; }
      addType(g, m, m.t.size() - 1, r, (int)r.below(2));
      ok = R.check(compare(g, m, w & ~CK_GLOBAL));
    }
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
