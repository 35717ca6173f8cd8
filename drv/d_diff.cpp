// sides, weights and targets of diffusion against the model
#include "common.h"
#include <engpar_diffusive_input.h>
#include <engpar_sides.h>
#include <engpar_weights.h>
#include <engpar_targets.h>
using namespace engpar;
static std::set<int> partsOf(const Model& m, const MEdge& e) {
  std::set<int> s;
  for (size_t k = 0; k < e.pins.size(); k++) s.insert(m.own[e.pins[k]]);
  return s;
}
// weight of part p for a criterion: -1 vertices, t edges of type t present on the part
static double partWeight(const Model& m, int p, int dim, bool ghosts) {
  double w = 0;
  if (dim < 0) {
    for (int i = 0; i < m.n(); i++) if (m.own[i] == p) w += m.w[i];
    if (ghosts) {
      std::set<int> gs;
      for (size_t t = 0; t < m.t.size(); t++) for (size_t e = 0; e < m.t[t].e.size(); e++) if (onRank(m, m.t[t].e[e], p))
        for (size_t k = 0; k < m.t[t].e[e].pins.size(); k++) if (m.own[m.t[t].e[e].pins[k]] != p) gs.insert(m.t[t].e[e].pins[k]);
      for (std::set<int>::iterator i = gs.begin(); i != gs.end(); ++i) w += m.w[*i];
    }
  } else for (size_t e = 0; e < m.t[dim].e.size(); e++) if (onRank(m, m.t[dim].e[e], p)) w += m.t[dim].e[e].w;
  return w;
}
template <class C> static std::string asMap(C* c, std::map<int, double>& out) {
  for (typename C::iterator i = c->begin(); i != c->end(); i++) out[i->first] = i->second;
  if (out.size() != c->size()) BAD("size() is " << c->size() << " but " << out.size() << " entries");
  typename C::iterator it = c->begin();
  const typename C::Item* x;
  size_t n = 0;
  while ((x = c->iterate(it))) { n++; if (!out.count(x->first) || out[x->first] != x->second) BAD("iterate() yields another entry"); if (n > out.size()) break; }
  if (n != out.size()) BAD("iterate() yields " << n << " entries of " << out.size());
  return "";
}
static std::string mapStr(const std::map<int, double>& a) { std::ostringstream s; for (std::map<int, double>::const_iterator i = a.begin(); i != a.end(); ++i) s << i->first << "->" << i->second << " "; return s.str(); }
static std::string container(Rng& r) {
  Container<double> c;
  std::map<int, double> ref;
  double tot = 0;
  for (int k = 0; k < 30; k++) {
    int key = (int)r.below(6);
    double v = r.real();
    switch (r.below(4)) {
    case 0: if (ref.count(key)) tot -= ref[key]; tot += v; ref[key] = v; c.set(key, v); break;
    case 1: if (c.has(key) != (ref.count(key) > 0)) BAD("container has(" << key << ")"); break;
    case 2: if (c.get(key) != ref[key]) BAD("container get(" << key << ") is " << c.get(key) << " expected " << ref[key]); break;
    default: c.increment(key); ref[key] += 1; tot += 1; break;
    }
    if (fabs(c.total() - tot) > 1e-9) BAD("container total is " << c.total() << " expected " << tot << " after setting key " << key);
    std::map<int, double> got;
    std::string e = asMap(&c, got);
    if (!e.empty()) return "container " + e;
    if (got != ref) BAD("container holds " << mapStr(got) << "expected " << mapStr(ref));
  }
  return "";
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_diff");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 7717 + i * 13 + P);
    GenOpt o;
    o.bothways = true;
    o.maxv = r.coin() ? 8 : 18;
    Model m = gen(r, P, o);
    wholeWeights(m, r, r.coin(3) ? 1 : 9);
    int T = (int)m.t.size();
    int st = (int)r.below(T), dim = (int)r.range(-1, T - 1);
    bool ghosts = r.coin();
    double step = r.coin() ? 0.1 : (double)r.range(1, 8) / 8;
    int sideTol = (int)r.range(0, 12);
    int nc = (int)r.below(3);
    std::vector<int> cd;
    std::vector<wgt_t> ct;
    for (int k = 0; k < nc; k++) { cd.push_back((int)r.range(-1, T - 1)); ct.push_back((double)r.range(0, 60)); }
    std::ostringstream d;
    d << "sides over type " << st << ", criterion " << dim << (ghosts ? " with ghosts" : "") << ", step " << step << ", side tolerance " << sideTol << ", completed";
    for (int k = 0; k < nc; k++) d << " " << cd[k] << "<" << ct[k];
    d << ", " << show(m);
    R.begin(i, d.str());
    if (m.n() > 3 && P > 1) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    std::string err = container(r);
    // expected sides of every part
    std::vector<std::map<int, double> > side(P);
    std::vector<double> cut(P, 0);
    for (size_t e = 0; e < m.t[st].e.size(); e++) {
      const MEdge& x = m.t[st].e[e];
      std::set<int> ps = partsOf(m, x);
      if (ps.size() < 2) continue;
      for (int p = 0; p < P; p++) if (onRank(m, x, p)) {
        cut[p] += x.w;
        for (std::set<int>::iterator q = ps.begin(); q != ps.end(); ++q) if (*q != p) side[p][*q] += x.w;
      }
    }
    Sides* s = r.coin() ? makeSides(g, st) : NULL;
    DiffusiveInput* in = createDiffusiveInput(g, step);
    in->sides_edge_type = st;
    in->countGhosts = ghosts;
    if (!s) s = makeSides(in);
    std::map<int, double> got;
    std::string e2 = asMap(s, got);
    if (err.empty()) err = e2;
    if (err.empty() && got != side[me]) err = "sides are " + mapStr(got) + "expected " + mapStr(side[me]);
    if (err.empty() && s->total() != cut[me]) { std::ostringstream q; q << "total of the sides is " << s->total() << " expected " << cut[me]; err = q.str(); }
    for (int p = 0; p < P && err.empty(); p++) if (side[p].count(me) != side[me].count(p)) err = "reference sides not symmetric";
    if (!R.check(err)) { destroyGraph(g); break; }
    Weights* w = r.coin() ? makeWeights(in, s, dim) : makeWeights(g, ghosts, s, dim);
    std::vector<Weights*> cw;
    for (int k = 0; k < nc; k++) cw.push_back(makeWeights(in, s, cd[k]));
    std::map<int, double> wg, we;
    err = asMap(w, wg);
    for (std::map<int, double>::iterator q = side[me].begin(); q != side[me].end(); ++q) we[q->first] = partWeight(m, q->first, dim, ghosts);
    std::ostringstream q;
    if (err.empty() && w->myWeight() != partWeight(m, me, dim, ghosts)) { q << "own weight is " << w->myWeight() << " expected " << partWeight(m, me, dim, ghosts); err = q.str(); }
    if (err.empty() && wg != we) err = "neighbour weights are " + mapStr(wg) + "expected " + mapStr(we);
    if (err.empty()) { w->addWeight(0); }
    if (!R.check(err)) { destroyGraph(g); break; }
    Weights** cwa = nc ? cw.data() : NULL;
    Targets* tg = r.coin() ? makeTargets(in, s, w, sideTol, cwa, ct) : makeTargets(m.hyper, step, s, w, sideTol, cwa, ct);
    std::map<int, double> tgot, te;
    double tot = 0;
    err = asMap(tg, tgot);
    for (std::map<int, double>::iterator q = side[me].begin(); q != side[me].end(); ++q) {
      int p = q->first;
      bool can = !m.hyper || q->second <= sideTol || P == 2;
      for (int k = 0; k < nc; k++) if (partWeight(m, p, cd[k], ghosts) >= ct[k]) can = false;
      double mine = partWeight(m, me, dim, ghosts), theirs = partWeight(m, p, dim, ghosts);
      if (can && mine > theirs) { te[p] = (mine - theirs) * (q->second / cut[me]) * step; tot += te[p]; }
    }
    bool same = tgot.size() == te.size();
    for (std::map<int, double>::iterator q = te.begin(); q != te.end() && same; ++q) same = tgot.count(q->first) && fabs(tgot[q->first] - q->second) <= 1e-9 * (1 + fabs(q->second));
    if (err.empty() && !same) err = "targets are " + mapStr(tgot) + "expected " + mapStr(te);
    if (err.empty() && fabs(tg->total() - tot) > 1e-9 * (1 + tot)) { std::ostringstream z; z << "total of the targets is " << tg->total() << " expected " << tot; err = z.str(); }
    bool ok = R.check(err);
    for (int k = 0; k < nc; k++) delete cw[k];
    delete tg; delete w; delete s; delete in;
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
