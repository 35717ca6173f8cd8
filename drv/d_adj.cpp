// second-adjacency tables against a direct computation from the model
#include "common.h"
static std::string vevcheck(Ngraph* g, const Model& m, int t, bool comp) {
  int me = PCU_Comm_Self();
  VertexIterator* vi = g->begin();
  GraphVertex* v;
  while ((v = g->iterate(vi))) {
    int i = m.at.find(g->globalID(v))->second;
    std::multiset<int> ex, got;
    std::set<int> uniq;
    for (size_t e = 0; e < m.t[t].e.size(); e++) {
      const MEdge& x = m.t[t].e[e];
      if (m.hyper) {
        if (std::find(x.pins.begin(), x.pins.end(), i) == x.pins.end()) continue;
        for (size_t k = 0; k < x.pins.size(); k++) { ex.insert(x.pins[k]); uniq.insert(x.pins[k]); }
      } else if (x.pins[0] == i) { ex.insert(x.pins[1]); uniq.insert(x.pins[1]); }
    }
    uniq.erase(i);
    if (comp) ex = std::multiset<int>(uniq.begin(), uniq.end());
    size_t n = 0;
    VEVIterator* it = g->vev_begin(v, t);
    for (GraphVertex* o = g->iterate(it); it != g->vev_end(v, t); o = g->iterate(it)) {
      if (!o) BAD("walk of vertex " << m.gid[i] << " type " << t << " yields null");
      if (++n > ex.size()) BAD("walk of vertex " << m.gid[i] << " type " << t << (comp ? " compressed" : " uncompressed") << " yields more than " << ex.size() << " entries");
      Gid gd = g->globalID(o);
      if (!m.at.count(gd)) BAD("unknown neighbour");
      got.insert(m.at.find(gd)->second);
    }
    if (got != ex) BAD("vertex-edge-vertex table of vertex " << m.gid[i] << " type " << t << (comp ? " compressed" : " uncompressed") << " has " << got.size() << " entries, expected " << ex.size() << " or other neighbours");
  }
  return "";
}
static std::string evecheck(Ngraph* g, const Model& m, int t, bool comp) {
  int me = PCU_Comm_Self();
  // handles by description
  std::vector<GraphEdge*> hs;
  std::map<GraphEdge*, std::vector<int> > pins;
  EdgeIterator* ei = g->begin(t);
  GraphEdge* e;
  while ((e = g->iterate(ei))) {
    hs.push_back(e);
    std::vector<int>& p = pins[e];
    if (m.hyper) {
      PinIterator* pi = g->pins(e);
      GraphVertex* q;
      while ((q = g->iterate(pi))) p.push_back(m.at.find(g->globalID(q))->second);
      g->destroy(pi);
    } else {
      p.push_back(m.at.find(g->globalID(g->u(e)))->second);
      p.push_back(m.at.find(g->globalID(g->v(e)))->second);
    }
  }
  g->destroy(ei);
  for (size_t a = 0; a < hs.size(); a++) {
    std::multiset<GraphEdge*> ex, got;
    std::set<GraphEdge*> uniq;
    for (size_t k = 0; k < pins[hs[a]].size(); k++) {
      int p = pins[hs[a]][k];
      if (m.own[p] != me) continue;
      for (size_t b = 0; b < hs.size(); b++) {
        bool has = m.hyper ? std::find(pins[hs[b]].begin(), pins[hs[b]].end(), p) != pins[hs[b]].end() : pins[hs[b]][0] == p;
        if (has) { ex.insert(hs[b]); uniq.insert(hs[b]); }
      }
    }
    uniq.erase(hs[a]);
    if (comp) ex = std::multiset<GraphEdge*>(uniq.begin(), uniq.end());
    size_t n = 0;
    EVEIterator* it = g->eve_begin(hs[a]);
    for (GraphEdge* o = g->iterate(it); it != g->eve_end(hs[a]); o = g->iterate(it)) {
      if (!o) BAD("walk of edge lid " << g->localID(hs[a]) << " type " << t << " yields null");
      if (++n > ex.size()) BAD("walk of edge lid " << g->localID(hs[a]) << " type " << t << (comp ? " compressed" : " uncompressed") << " yields more than " << ex.size() << " entries");
      got.insert(o);
    }
    if (got != ex) BAD("edge-vertex-edge table of edge lid " << g->localID(hs[a]) << " type " << t << (comp ? " compressed" : " uncompressed") << " has " << got.size() << " entries, expected " << ex.size() << " or other edges");
  }
  return "";
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_adj");
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 65537 + i * 13 + PCU_Comm_Peers());
    GenOpt o;
    Model m = gen(r, PCU_Comm_Peers(), o);
    R.begin(i, "second adjacency of " + show(m));
    if (m.n() > 2 && m.t.size() > 1) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    std::string err;
    // tables of all types and both kinds exist at once, then some are rebuilt in the other form
    std::vector<int> cv(m.t.size()), ce(m.t.size());
    for (int round = 0; round < 2 && err.empty(); round++) {
      for (size_t t = 0; t < m.t.size(); t++) {
        if (round && r.coin()) continue;
        cv[t] = (int)r.below(2);
        g->create_vev_adjacency(t, cv[t]);
        ce[t] = (int)r.below(2);
        g->create_eve_adjacency(t, ce[t]);
      }
      for (size_t t = 0; t < m.t.size() && err.empty(); t++) {
        err = vevcheck(g, m, t, cv[t]);
        if (err.empty()) err = evecheck(g, m, t, ce[t]);
      }
      if (err.empty()) err = compare(g, m, CK_VERT | CK_EDGE);
    }
    bool ok = R.check(err);
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
