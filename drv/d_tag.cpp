// tags: histories of writes against a reference, several tags alive at once; ghost tags against the owner's value
#include "common.h"
static ll kfun(Gid g) { return (g * 2654435761ll + 12345) % 100003; }
static int cbI(Ngraph* g, GraphVertex* v) { return (int)kfun(g->globalID(v)) * (PCU_Comm_Self() == g->owner(v) ? 1 : -1) + g->localID(v) * 0; }
static long cbL(Ngraph* g, GraphVertex* v) { return ((long)kfun(g->globalID(v)) << 33) + g->degree(v, 0); }
static double cbD(Ngraph* g, GraphVertex* v) { return g->weight(v) * 2 + PCU_Comm_Self(); }
struct TagRef {
  int kind, type;   // kind 0 int 1 double 2 long ; type VTX_TYPE or edge type
  GraphTag* tag;
  std::map<void*, double> val;
};
int main(int argc, char** argv) {
  Run R(argc, argv, "d_tag");
  int me = PCU_Comm_Self(), P = PCU_Comm_Peers();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 271829 + i * 19 + P);
    GenOpt o;
    Model m = gen(r, P, o);
    R.begin(i, "tags on " + show(m));
    if (m.n() > 2 && m.t.size() > 1) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    Rng l(R.seed * 77 + i + me * 1009);
    std::vector<GraphVertex*> vs;
    std::vector<std::vector<GraphEdge*> > es(m.t.size());
    VertexIterator* vi = g->begin();
    GraphVertex* v;
    while ((v = g->iterate(vi))) vs.push_back(v);
    for (size_t t = 0; t < m.t.size(); t++) {
      EdgeIterator* ei = g->begin(t);
      GraphEdge* e;
      while ((e = g->iterate(ei))) es[t].push_back(e);
      g->destroy(ei);
    }
    std::vector<TagRef> tags;
    std::string err;
    int ops = (int)l.range(4, 120);
    for (int k = 0; k < ops && err.empty(); k++) {
      if (tags.empty() || (tags.size() < 6 && l.coin(8))) {
        TagRef t;
        t.kind = (int)l.below(3);
        t.type = l.coin() ? (int)VTX_TYPE : (int)l.below(m.t.size());
        t.tag = t.kind == 0 ? g->createIntTag(t.type) : t.kind == 1 ? g->createDoubleTag(t.type) : g->createLongTag(t.type);
        tags.push_back(t);
        continue;
      }
      size_t q = l.below(tags.size());
      TagRef& t = tags[q];
      if (l.coin(25)) { g->destroyTag(t.tag); tags.erase(tags.begin() + q); continue; }
      bool isv = t.type == (int)VTX_TYPE;
      size_t n = isv ? vs.size() : es[t.type].size();
      if (!n) continue;
      size_t j = l.below(n);
      GraphVertex* x = isv ? vs[j] : NULL;
      GraphEdge* e = isv ? NULL : es[t.type][j];
      double val = t.kind == 0 ? (double)(int)(l.next() >> 33) : t.kind == 1 ? l.real() : (double)(l.next() >> 12);
      if (l.coin(4)) val = -val;
      if (isv) { if (t.kind == 0) g->setIntTag(t.tag, x, (int)val); else if (t.kind == 1) g->setDoubleTag(t.tag, x, val); else g->setLongTag(t.tag, x, (long)val); t.val[x] = val; }
      else { if (t.kind == 0) g->setIntTag(t.tag, e, (int)val); else if (t.kind == 1) g->setDoubleTag(t.tag, e, val); else g->setLongTag(t.tag, e, (long)val); t.val[e] = val; }
      for (size_t a = 0; a < tags.size() && err.empty(); a++)
        for (std::map<void*, double>::iterator w = tags[a].val.begin(); w != tags[a].val.end(); ++w) {
          TagRef& u = tags[a];
          double got;
          if (u.type == (int)VTX_TYPE) { GraphVertex* y = (GraphVertex*)w->first; got = u.kind == 0 ? g->getIntTag(u.tag, y) : u.kind == 1 ? g->getDoubleTag(u.tag, y) : (double)g->getLongTag(u.tag, y); }
          else { GraphEdge* y = (GraphEdge*)w->first; got = u.kind == 0 ? g->getIntTag(u.tag, y) : u.kind == 1 ? g->getDoubleTag(u.tag, y) : (double)g->getLongTag(u.tag, y); }
          if (got != w->second) {
            std::ostringstream s;
            s << (u.kind == 0 ? "int" : u.kind == 1 ? "double" : "long") << " tag on " << (u.type == (int)VTX_TYPE ? "vertices" : "edges of type ");
            if (u.type != (int)VTX_TYPE) s << u.type;
            s << " reads " << got << " expected " << w->second << " after write " << k;
            err = s.str();
            break;
          }
        }
    }
    for (size_t a = 0; a < tags.size(); a++) g->destroyTag(tags[a].tag);
    if (!R.check(err)) { destroyGraph(g); break; }
    GraphTag *a = g->createIntGhostTag(cbI), *b = g->createLongGhostTag(cbL), *c = g->createDoubleGhostTag(cbD);
    GhostIterator* gi = g->beginGhosts();
    while (err.empty() && (v = g->iterate(gi))) {
      int x = m.at[g->globalID(v)];
      ll deg = 0;
      for (size_t e = 0; e < m.t[0].e.size(); e++) {
        const MEdge& y = m.t[0].e[e];
        if (m.hyper ? std::find(y.pins.begin(), y.pins.end(), x) != y.pins.end() : y.pins[0] == x) deg++;
      }
      std::ostringstream s;
      if (g->getIntTag(a, v) != (int)kfun(m.gid[x])) s << "int ghost tag of " << m.gid[x] << " is " << g->getIntTag(a, v) << " expected " << kfun(m.gid[x]);
      else if (g->getLongTag(b, v) != (kfun(m.gid[x]) << 33) + deg) s << "long ghost tag of " << m.gid[x] << " is " << g->getLongTag(b, v) << " expected " << (kfun(m.gid[x]) << 33) + deg;
      else if (g->getDoubleTag(c, v) != m.w[x] * 2 + m.own[x]) s << "double ghost tag of " << m.gid[x] << " is " << g->getDoubleTag(c, v) << " expected " << m.w[x] * 2 + m.own[x];
      err = s.str();
    }
    g->destroyTag(a); g->destroyTag(b); g->destroyTag(c);
    bool ok = R.check(err);
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
