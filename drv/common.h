// Shared by the concrete drivers: random graphs with an independent reference model, and comparison of an
// Ngraph with that model through its public interface.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <mpi.h>
#include <PCU.h>
#include <engpar_support.h>
#include <ngraph.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <sstream>
using namespace agi;
typedef long long ll;
typedef agi::gid_t Gid;

struct Rng {
  uint64_t s;
  Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  ll below(ll n) { return n <= 0 ? 0 : (ll)(next() % (uint64_t)n); }
  ll range(ll a, ll b) { return a + below(b - a + 1); }
  bool coin(int k = 2) { return below(k) == 0; }
  double real() { return (double)(next() >> 40) / 256.0; }   // exactly representable
};
template <class T> void shuffle_(std::vector<T>& v, Rng& r) {
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
}

struct MEdge { Gid gid; std::vector<int> pins; double w; };
struct MType { std::vector<MEdge> e; bool weighted; };
struct Model {
  bool hyper;
  int ranks;
  std::vector<Gid> gid;       // per vertex
  std::vector<double> w;
  std::vector<int> own;
  std::vector<std::vector<double> > xyz;
  bool coords;
  std::vector<MType> t;
  std::map<Gid, int> at;
  int n() const { return (int)gid.size(); }
};

struct GenOpt {
  int maxv, maxe, maxpins, maxtypes;
  int hyper;           // -1 random
  bool biggids, selfloops, emptyranks, bothways, large;
  GenOpt() : maxv(14), maxe(16), maxpins(5), maxtypes(3), hyper(-1), biggids(true), selfloops(false), emptyranks(true), bothways(false), large(true) {}
};

inline Model gen(Rng& r, int ranks, const GenOpt& o_) {
  GenOpt o = o_;
  if (o.large && r.coin(40)) { o.maxv *= 20; o.maxe *= 20; o.maxpins *= 3; }   // now and then a larger graph
  Model m;
  m.ranks = ranks;
  m.hyper = o.hyper < 0 ? r.coin() : o.hyper != 0;
  int n = (int)r.range(1, o.maxv);
  if (!o.emptyranks && n < ranks) n = ranks;
  std::set<Gid> used;
  bool big = o.biggids && r.coin();
  for (int i = 0; i < n; i++) {
    Gid g;
    do g = big ? (Gid)r.below((ll)1 << 40) : (Gid)r.below(4 * n); while (used.count(g));
    used.insert(g);
    m.gid.push_back(g);
    m.at[g] = i;
    m.w.push_back(1 + r.real());
    m.own.push_back((int)r.below(ranks));
    std::vector<double> x;
    for (int d = 0; d < 3; d++) x.push_back(r.real());
    m.xyz.push_back(x);
  }
  if (!o.emptyranks) for (int p = 0; p < ranks; p++) m.own[p] = p;
  m.coords = r.coin();
  if (r.coin(6)) m.w.assign(n, 1.0);
  int T = (int)r.range(1, o.maxtypes);
  for (int t = 0; t < T; t++) {
    MType y;
    y.weighted = r.coin();
    int E = (int)r.range(r.coin(4) ? 0 : 1, o.maxe);
    std::set<Gid> eu;
    for (int e = 0; e < E; e++) {
      MEdge x;
      do x.gid = big ? (Gid)r.below((ll)1 << 40) : (Gid)r.below(6 * E + 6); while (eu.count(x.gid));
      eu.insert(x.gid);
      x.w = y.weighted ? 1 + r.real() : 1;
      if (m.hyper) {
        int k = (int)r.range(1, std::min(o.maxpins, n));
        std::vector<int> perm;
        for (int i = 0; i < n; i++) perm.push_back(i);
        shuffle_(perm, r);
        x.pins.assign(perm.begin(), perm.begin() + k);
      } else {
        int u = (int)r.below(n), v = (int)r.below(n);
        if (u == v && !o.selfloops) { if (n == 1) continue; v = (u + 1) % n; }
        x.pins.push_back(u);
        x.pins.push_back(v);
        if (o.bothways) {
          MEdge z = x;
          std::swap(z.pins[0], z.pins[1]);
          do z.gid = (Gid)r.below((ll)1 << 30); while (eu.count(z.gid));
          eu.insert(z.gid);
          y.e.push_back(z);
        }
      }
      y.e.push_back(x);
    }
    m.t.push_back(y);
  }
  return m;
}

inline std::string show(const Model& m) {
  std::ostringstream s;
  s << (m.hyper ? "hypergraph" : "graph") << " vertices[gid@owner]:";
  for (int i = 0; i < m.n(); i++) s << ' ' << m.gid[i] << '@' << m.own[i];
  for (size_t t = 0; t < m.t.size(); t++) {
    s << " | type " << t << " edges[gid:pins]:";
    for (size_t e = 0; e < m.t[t].e.size(); e++) {
      s << ' ' << m.t[t].e[e].gid << ":(";
      for (size_t k = 0; k < m.t[t].e[e].pins.size(); k++) s << (k ? "," : "") << m.gid[m.t[t].e[e].pins[k]];
      s << ")w" << m.t[t].e[e].w;
    }
  }
  return s.str();
}

inline bool onRank(const Model& m, const MEdge& e, int p) {
  if (!m.hyper) return m.own[e.pins[0]] == p;
  for (size_t k = 0; k < e.pins.size(); k++) if (m.own[e.pins[k]] == p) return true;
  return false;
}

// lists the edges of type t this rank holds; owns collects the owners of their ghosts
inline void addType(Ngraph* g, const Model& m, size_t t, Rng& lr, int api, bool shuffled = true, std::unordered_map<Gid, part_t>* owns_ = NULL) {
  int me = PCU_Comm_Self();
  std::unordered_map<Gid, part_t> tmp;
  std::unordered_map<Gid, part_t>& owns = owns_ ? *owns_ : tmp;
  std::vector<Gid> es, ps;
  std::vector<lid_t> ds;
  std::vector<wgt_t> ew;
  std::vector<int> ord;
  for (size_t e = 0; e < m.t[t].e.size(); e++) if (onRank(m, m.t[t].e[e], me)) ord.push_back(e);
  if (shuffled) shuffle_(ord, lr);
  for (size_t k = 0; k < ord.size(); k++) {
    const MEdge& e = m.t[t].e[ord[k]];
    es.push_back(e.gid);
    ds.push_back((lid_t)e.pins.size());
    for (size_t j = 0; j < e.pins.size(); j++) {
      ps.push_back(m.gid[e.pins[j]]);
      if (m.own[e.pins[j]] != me) owns[m.gid[e.pins[j]]] = m.own[e.pins[j]];
    }
    if (m.t[t].weighted) ew.push_back(e.w);
  }
  if (api) g->constructEdges((Gid)es.size(), es.data(), ds.data(), ps.data(), m.t[t].weighted ? ew.data() : NULL);
  else g->constructEdges(es, ds, ps, ew);
}

// builds this rank's part of the model; api 0: vectors, 1: arrays
inline Ngraph* build(const Model& m, Rng r, int api, bool shuffled = true, Ngraph* into = NULL) {
  int me = PCU_Comm_Self();
  Rng lr(r.next() + me * 7919);
  Ngraph* g = into ? into : createEmptyGraph();
  std::vector<Gid> vs;
  std::vector<int> idx;
  for (int i = 0; i < m.n(); i++) if (m.own[i] == me) idx.push_back(i);
  if (shuffled) shuffle_(idx, lr);
  std::vector<wgt_t> ws;
  for (size_t i = 0; i < idx.size(); i++) { vs.push_back(m.gid[idx[i]]); ws.push_back(m.w[idx[i]]); }
  bool unit = true;
  for (int i = 0; i < m.n(); i++) if (m.w[i] != 1) unit = false;
  if (api) g->constructVerts(m.hyper, (lid_t)vs.size(), vs.data(), unit ? NULL : ws.data());
  else { if (unit) ws.clear(); g->constructVerts(m.hyper, vs, ws); }
  std::unordered_map<Gid, part_t> owns;
  for (size_t t = 0; t < m.t.size(); t++) addType(g, m, t, lr, api, shuffled, &owns);
  if (lr.coin(4)) for (int i = 0; i < m.n(); i++) owns[m.gid[i]] = m.own[i];   // owners of vertices that are no ghosts here
  if (api) {
    std::vector<Gid> gs;
    std::vector<part_t> os;
    for (std::unordered_map<Gid, part_t>::iterator i = owns.begin(); i != owns.end(); ++i) { gs.push_back(i->first); os.push_back(i->second); }
    g->constructGhosts((lid_t)gs.size(), gs.data(), os.data());
  } else g->constructGhosts(owns);
  if (m.coords) {
    std::vector<double> c(3 * (vs.size() + 1));
    for (size_t i = 0; i < idx.size(); i++) for (int d = 0; d < 3; d++) c[3 * i + d] = m.xyz[idx[i]][d];
    g->setCoords((coord_t*)c.data());
  }
  return g;
}

// first discrepancy between the graph and the model, "" if none.
#define BAD(x) do { std::ostringstream s_; s_ << x; return s_.str(); } while (0)
enum { CK_VERT = 1, CK_EDGE = 2, CK_WGT = 4, CK_TRAV = 8, CK_RES = 16, CK_UV = 32, CK_GLOBAL = 64, CK_GHOSTW = 128, CK_COORD = 256, CK_ALL = 511 };

inline std::string compare(Ngraph* g, const Model& m, int what, bool exact_edge_gids = true) {
  int me = PCU_Comm_Self();
  if (g->isHyper() != m.hyper) BAD("isHyper");
  if (g->numEdgeTypes() != (int)m.t.size()) BAD("numEdgeTypes " << g->numEdgeTypes() << " expected " << m.t.size());
  int nl = 0;
  std::set<int> ghosts;
  for (int i = 0; i < m.n(); i++) if (m.own[i] == me) nl++;
  for (size_t t = 0; t < m.t.size(); t++)
    for (size_t e = 0; e < m.t[t].e.size(); e++)
      if (onRank(m, m.t[t].e[e], me))
        for (size_t k = 0; k < m.t[t].e[e].pins.size(); k++)
          if (m.own[m.t[t].e[e].pins[k]] != me) ghosts.insert(m.t[t].e[e].pins[k]);
  if (g->numLocalVtxs() != nl) BAD("numLocalVtxs " << g->numLocalVtxs() << " expected " << nl);
  if (g->numGhostVtxs() != (int)ghosts.size()) BAD("numGhostVtxs " << g->numGhostVtxs() << " expected " << ghosts.size());
  if (g->numTotalVtxs() != nl + (int)ghosts.size()) BAD("numTotalVtxs");
  if ((what & CK_GLOBAL) && g->numGlobalVtxs() != m.n()) BAD("numGlobalVtxs " << g->numGlobalVtxs() << " expected " << m.n());
  // vertices
  std::map<int, GraphVertex*> byidx;
  std::set<GraphVertex*> handles;
  VertexIterator* vi = g->begin();
  GraphVertex* v;
  int cnt = 0;
  while ((v = g->iterate(vi))) {
    if (++cnt > nl) BAD("vertex traversal visits more than numLocalVtxs vertices");
    if (!handles.insert(v).second) BAD("vertex visited twice");
    Gid gd = g->globalID(v);
    if (!m.at.count(gd) || m.own[m.at.find(gd)->second] != me) BAD("vertex traversal yields gid " << gd << " that is not local here");
    int i = m.at.find(gd)->second;
    if (byidx.count(i)) BAD("gid " << gd << " visited twice");
    byidx[i] = v;
    if (g->localID(v) < 0 || g->localID(v) >= nl) BAD("localID of local vertex out of range");
    if (g->owner(v) != me) BAD("owner of local vertex " << gd << " is " << g->owner(v));
    if ((what & CK_WGT) && g->weight(v) != m.w[i]) BAD("weight of vertex " << gd << " is " << g->weight(v) << " expected " << m.w[i]);
    if ((what & CK_COORD) && m.coords)
      for (int d = 0; d < 3; d++) if (g->coord(v)[d] != m.xyz[i][d]) BAD("coordinate " << d << " of vertex " << gd << " is " << g->coord(v)[d] << " expected " << m.xyz[i][d]);
    if (!g->isEqual(g->findGID(gd), v)) BAD("findGID(" << gd << ") is not the vertex with that id");
    if (!g->isEqual(g->find(v), v)) BAD("find");
    if (!g->isEqual(g->publicize()->getVertex(g->localID(v)), v)) BAD("getVertex(localID(v)) != v");
  }
  if (cnt != nl) BAD("vertex traversal visits " << cnt << " of " << nl);
  GhostIterator* gi = g->beginGhosts();
  cnt = 0;
  while ((v = g->iterate(gi))) {
    if (++cnt > (int)ghosts.size()) BAD("ghost traversal visits too many");
    Gid gd = g->globalID(v);
    if (!m.at.count(gd) || !ghosts.count(m.at.find(gd)->second)) BAD("ghost traversal yields gid " << gd << " that is not a ghost here");
    int i = m.at.find(gd)->second;
    if (byidx.count(i)) BAD("ghost " << gd << " visited twice");
    byidx[i] = v;
    if (g->owner(v) != m.own[i]) BAD("owner of ghost " << gd << " is " << g->owner(v) << " expected " << m.own[i]);
    if ((what & CK_GHOSTW) && PCU_Comm_Peers() > 1 && g->weight(v) != m.w[i]) BAD("weight of ghost " << gd << " is " << g->weight(v) << " expected " << m.w[i]);
    if (!g->isEqual(g->findGID(gd), v)) BAD("findGID(ghost " << gd << ")");
  }
  if (cnt != (int)ghosts.size()) BAD("ghost traversal visits " << cnt << " of " << ghosts.size());
  if ((bool)g->hasCoords() != m.coords && (what & CK_COORD)) BAD("hasCoords");
  for (size_t t = 0; t < m.t.size(); t++) {
    // expected local edges
    std::map<Gid, const MEdge*> he;                       // hyper: by gid
    std::map<std::pair<int, int>, std::multiset<double> > te;  // traditional: by endpoints
    int ne = 0, np = 0, ge = 0;
    ll gp = 0;
    std::map<int, int> deg;
    for (size_t e = 0; e < m.t[t].e.size(); e++) {
      const MEdge& x = m.t[t].e[e];
      ge++;
      gp += x.pins.size();
      if (!onRank(m, x, me)) continue;
      ne++;
      np += x.pins.size();
      if (m.hyper) { he[x.gid] = &x; for (size_t k = 0; k < x.pins.size(); k++) if (m.own[x.pins[k]] == me) deg[x.pins[k]]++; }
      else { te[std::make_pair(x.pins[0], x.pins[1])].insert(x.w); deg[x.pins[0]]++; }
    }
    if (g->numLocalEdges(t) != ne) BAD("numLocalEdges(" << t << ") " << g->numLocalEdges(t) << " expected " << ne);
    if (g->numLocalPins(t) != np) BAD("numLocalPins(" << t << ") " << g->numLocalPins(t) << " expected " << np);
    if (what & CK_GLOBAL) {
      if (g->numGlobalEdges(t) != ge) BAD("numGlobalEdges(" << t << ") " << g->numGlobalEdges(t) << " expected " << ge);
      if (g->numGlobalPins(t) != gp) BAD("numGlobalPins(" << t << ") " << g->numGlobalPins(t) << " expected " << gp);
    }
    std::map<std::pair<int, int>, std::multiset<double> > seen_t;
    std::set<Gid> seen_h;
    std::map<GraphEdge*, int> lids;
    std::set<int> lidset;
    EdgeIterator* ei = g->begin(t);
    GraphEdge* e;
    cnt = 0;
    std::string err;
    while ((e = g->iterate(ei))) {
      if (++cnt > ne) { g->destroy(ei); BAD("edge traversal of type " << t << " visits more than numLocalEdges"); }
      int l = g->localID(e);
      if (l < 0 || l >= ne || !lidset.insert(l).second) { BAD("edge localID " << l << " out of range or repeated"); }
      lids[e] = l;
      if (g->publicize()->getEdge(l, t) != e) BAD("getEdge(localID(e),t) != e for lid " << l << " type " << t);
      if ((int)(((uintptr_t)e - 1) % g->numEdgeTypes()) != (int)t) BAD("edge of another type visited");
      std::vector<int> ps;
      PinIterator* pi = g->pins(e);
      GraphVertex* q;
      while ((q = g->iterate(pi))) {
        if ((int)ps.size() > (int)m.n()) BAD("pin traversal does not end");
        Gid gd = g->globalID(q);
        if (!m.at.count(gd)) BAD("pin with unknown gid " << gd);
        ps.push_back(m.at.find(gd)->second);
      }
      g->destroy(pi);
      if (g->degree(e) != (int)(m.hyper ? ps.size() : 2)) BAD("degree of edge lid " << l << " type " << t << " is " << g->degree(e) << " but traversal gives " << ps.size());
      double w = g->weight(e);
      if (m.hyper) {
        Gid gd = g->globalID(e);
        if (!he.count(gd)) BAD("hyperedge gid " << gd << " of type " << t << " not expected on this rank");
        if (!seen_h.insert(gd).second) BAD("hyperedge " << gd << " visited twice");
        std::vector<int> a(ps), b(he[gd]->pins);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) BAD("pins of hyperedge " << gd << " of type " << t << " are not the input's");
        if ((what & CK_WGT) && w != he[gd]->w) BAD("weight of hyperedge " << gd << " of type " << t << " is " << w << " expected " << he[gd]->w);
        if (what & CK_RES) {
          std::set<int> ex;
          for (size_t k = 0; k < ps.size(); k++) ex.insert(m.own[ps[k]]);
          Peers res;
          g->getResidence(e, res);
          std::set<int> got(res.begin(), res.end());
          if (got != ex) BAD("getResidence of hyperedge " << gd);
          for (int p = 0; p < m.ranks; p++) if (g->isResidentOn(e, p) != (ex.count(p) > 0)) BAD("isResidentOn(" << gd << "," << p << ") is " << g->isResidentOn(e, p));
          if (g->isCut(e) != (ex.size() > 1)) BAD("isCut(" << gd << ")");
        }
      } else {
        GraphVertex *uu = g->u(e), *vv = g->v(e);
        int a = m.at.count(g->globalID(uu)) ? m.at.find(g->globalID(uu))->second : -1;
        int b = m.at.count(g->globalID(vv)) ? m.at.find(g->globalID(vv))->second : -1;
        if ((int)ps.size() == 2 && (ps[0] != a || ps[1] != b)) BAD("pins of edge lid " << l << " are not (u,v)");
        if (a != b && ps.size() != 2) BAD("pins of edge lid " << l << " number " << ps.size());
        if (what & CK_WGT) seen_t[std::make_pair(a, b)].insert(w);
        else seen_t[std::make_pair(a, b)].insert(0);
        if (what & CK_RES) {
          std::set<int> ex;
          ex.insert(m.own[a]);
          ex.insert(m.own[b]);
          if (a >= 0 && b >= 0 && a != b) {
            Peers res;
            g->getResidence(e, res);
            std::set<int> got(res.begin(), res.end());
            if (got != ex) BAD("getResidence of edge (" << m.gid[a] << "," << m.gid[b] << ")");
            for (int p = 0; p < m.ranks; p++) if (g->isResidentOn(e, p) != (ex.count(p) > 0)) BAD("isResidentOn of edge");
            if (g->isCut(e) != (ex.size() > 1)) BAD("isCut of edge (" << m.gid[a] << "," << m.gid[b] << ")");
          }
        }
      }
    }
    if (g->iterate(ei)) BAD("edge iterator does not stay at the end");
    g->destroy(ei);
    if (cnt != ne) BAD("edge traversal of type " << t << " visits " << cnt << " of " << ne);
    if (!m.hyper) {
      if (!(what & CK_WGT)) { std::map<std::pair<int, int>, std::multiset<double> > z; for (std::map<std::pair<int, int>, std::multiset<double> >::iterator i = te.begin(); i != te.end(); ++i) for (size_t k = 0; k < i->second.size(); k++) z[i->first].insert(0); te = z; }
      if (seen_t != te) {
        for (std::map<std::pair<int, int>, std::multiset<double> >::iterator i = te.begin(); i != te.end(); ++i)
          if (seen_t[i->first] != i->second) BAD("edge (" << m.gid[i->first.first] << "," << m.gid[i->first.second] << ") of type " << t << ": multiplicity or weight differs (got " << (seen_t[i->first].size() ? *seen_t[i->first].begin() : -1) << " expected " << *i->second.begin() << ")");
        BAD("edges of type " << t << " that are not in the input");
      }
    }
    if (m.hyper) {   // edge identifiers, both ways (a traditional edge is known by its end points)
      PNgraph::map_t& em = g->publicize()->edge_mapping[t];
      Gid* un = g->publicize()->edge_unmap[t];
      std::set<Gid> all;
      for (size_t e2 = 0; e2 < m.t[t].e.size(); e2++) if (onRank(m, m.t[t].e[e2], me)) all.insert(m.t[t].e[e2].gid);
      if (exact_edge_gids) for (std::set<Gid>::iterator k = all.begin(); k != all.end(); ++k) if (!em.count(*k)) BAD("edge id " << *k << " of type " << t << " has no local id");
      for (PNgraph::map_t::iterator k = em.begin(); k != em.end(); ++k) {
        if (exact_edge_gids && !all.count(k->first)) BAD("edge id " << k->first << " of type " << t << " still has a local id but is not an edge here");
        if (k->second < 0 || k->second >= ne) BAD("edge id " << k->first << " has local id " << k->second << " of " << ne);
        if (un[k->second] != k->first) BAD("edge id " << k->first << " maps to local id " << k->second << " whose id is " << un[k->second]);
      }
    }
    // per-vertex traversal
    for (std::map<int, GraphVertex*>::iterator it = byidx.begin(); it != byidx.end(); ++it) {
      int i = it->first;
      if (m.own[i] != me) continue;
      if (g->degree(it->second, t) != deg[i]) BAD("degree of vertex " << m.gid[i] << " type " << t << " is " << g->degree(it->second, t) << " expected " << deg[i]);
      std::multiset<GraphEdge*> es;
      EdgeIterator* xi = g->edges(it->second, t);
      int c2 = 0;
      while ((e = g->iterate(xi))) {
        if (++c2 > deg[i]) BAD("edges(v) of vertex " << m.gid[i] << " type " << t << " visits more than degree(v)");
        es.insert(e);
        if (!lids.count(e)) BAD("edges(v) yields an unknown edge");
        if (m.hyper) {
          Gid gd = g->globalID(e);
          const MEdge* x = he[gd];
          if (!x || std::find(x->pins.begin(), x->pins.end(), i) == x->pins.end()) BAD("edges(" << m.gid[i] << ") yields hyperedge " << gd << " without that pin");
        } else {
          if (g->u(e) != it->second) BAD("edges(" << m.gid[i] << ") yields an edge of another source");
        }
      }
      g->destroy(xi);
      if (c2 != deg[i]) BAD("edges(v) of vertex " << m.gid[i] << " type " << t << " visits " << c2 << " of " << deg[i]);
      std::set<GraphEdge*> dist(es.begin(), es.end());
      if ((int)dist.size() != deg[i]) BAD("edges(v) repeats an edge");
      if (what & CK_TRAV) {
        // adjacent(v): hyper: every pin of every edge other than... ; traditional: targets
        std::multiset<int> ex, got;
        for (std::set<GraphEdge*>::iterator k = dist.begin(); k != dist.end(); ++k) {
          if (m.hyper) { const MEdge* x = he[g->globalID(*k)]; for (size_t j = 0; j < x->pins.size(); j++) if (x->pins[j] != i) ex.insert(x->pins[j]); }
          else ex.insert(m.at.find(g->globalID(g->v(*k)))->second);
        }
        GraphIterator* ad = g->adjacent(it->second, t);
        GraphVertex* q;
        int c3 = 0;
        while ((q = g->iterate(ad))) {
          if (++c3 > 10000) BAD("adjacent(v) does not end");
          Gid gd = g->globalID(q);
          if (!m.at.count(gd)) BAD("adjacent(v) yields an unknown vertex");
          int j = m.at.find(gd)->second;
          GraphEdge* ce = g->edge(ad);
          if (!dist.count(ce)) BAD("edge(adjacent iterator) is not an edge of the vertex");
          if (m.hyper) { const MEdge* x = he[g->globalID(ce)]; if (std::find(x->pins.begin(), x->pins.end(), j) == x->pins.end()) BAD("edge(adjacent iterator) does not contain the neighbour"); }
          else if (g->v(ce) != q) BAD("edge(adjacent iterator) does not lead to the neighbour");
          if (!(m.hyper && j == i)) got.insert(j);
        }
        g->destroy(ad);
        if (got != ex) BAD("adjacent(" << m.gid[i] << ") of type " << t << " yields " << got.size() << " neighbours, expected " << ex.size());
      }
    }
  }
  return "";
}

// whole-number weights, so that sums are exact however they are ordered
inline void wholeWeights(Model& m, Rng& r, int maxw) {
  for (int i = 0; i < m.n(); i++) m.w[i] = (double)r.range(1, maxw);
  for (size_t t = 0; t < m.t.size(); t++) for (size_t e = 0; e < m.t[t].e.size(); e++) m.t[t].e[e].w = m.t[t].weighted ? (double)r.range(1, maxw) : 1;
}
// reads the current owner of every vertex back from the graph; error if some vertex is on no or several ranks
inline std::string regather(Ngraph* g, Model& m) {
  std::vector<int> own(m.n(), 0), cnt(m.n(), 0), o2(m.n()), c2(m.n());
  std::string err;
  VertexIterator* vi = g->begin();
  GraphVertex* v;
  int guard = 0;
  while ((v = g->iterate(vi)) && guard++ < 4 * m.n() + 4) {
    Gid x = g->globalID(v);
    if (!m.at.count(x)) { std::ostringstream s; s << "unknown vertex " << x; err = s.str(); continue; }
    int i = m.at[x];
    cnt[i]++;
    own[i] += PCU_Comm_Self();
  }
  MPI_Allreduce(own.data(), o2.data(), m.n(), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  MPI_Allreduce(cnt.data(), c2.data(), m.n(), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  for (int i = 0; i < m.n(); i++) {
    if (c2[i] != 1 && err.empty()) { std::ostringstream s; s << "vertex " << m.gid[i] << " is owned " << c2[i] << " times"; err = s.str(); }
    m.own[i] = c2[i] == 1 ? o2[i] : 0;
  }
  return err;
}
// partition map and original owners against where every vertex started
inline std::string partsOk(Ngraph* g, const Model& m, const std::vector<int>& first) {
  int me = PCU_Comm_Self();
  VertexIterator* vi = g->begin();
  GraphVertex* v;
  while ((v = g->iterate(vi))) {
    int i = m.at.find(g->globalID(v))->second;
    if (g->originalOwner(v) != first[i]) BAD("original owner of vertex " << m.gid[i] << " is " << g->originalOwner(v) << " expected " << first[i]);
  }
  PartitionMap* pm = g->getPartition();
  std::ostringstream s;
  size_t n = 0;
  for (int i = 0; i < m.n(); i++) {
    if (first[i] != me) continue;
    n++;
    if (!pm->count(m.gid[i])) s << "getPartition does not list vertex " << m.gid[i] << "; ";
    else if ((*pm)[m.gid[i]] != m.own[i]) s << "getPartition maps vertex " << m.gid[i] << " to " << (*pm)[m.gid[i]] << " expected " << m.own[i] << "; ";
  }
  if (s.str().empty() && pm->size() != n) s << "getPartition lists " << pm->size() << " vertices, expected " << n;
  delete pm;
  return s.str();
}

// ---------------------------------------------------------------- running cases
struct Run {
  const char* name;
  long seed;
  int cases;
  int ran, nontrivial;
  double deadline;
  bool failed;
  Run(int argc, char** argv, const char* nm) : name(nm), seed(1), cases(50), ran(0), nontrivial(0), deadline(0), failed(false) {
    MPI_Init(&argc, &argv);
    PCU_Comm_Init();
    EnGPar_Initialize();
    EnGPar_Set_Verbosity(-1);
    if (argc > 1) seed = atol(argv[1]);
    if (argc > 2) cases = atoi(argv[2]);
    if (argc > 3) deadline = MPI_Wtime() + atof(argv[3]);
  }
  bool more(int i) {
    int go = i < cases && !failed && !(deadline && MPI_Wtime() > deadline);
    MPI_Bcast(&go, 1, MPI_INT, 0, MPI_COMM_WORLD);
    return go;
  }
  void begin(int i, const std::string& desc) {
    ran++;
    if (!PCU_Comm_Self()) {
      FILE* f = fopen("last_case.txt", "w");
      if (f) { fprintf(f, "%s seed %ld case %d ranks %d: %s\n", name, seed, i, PCU_Comm_Peers(), desc.c_str()); fclose(f); }
    }
    cur = i;
    cdesc = desc;
  }
  int cur;
  std::string cdesc;
  // collective; err empty = fine
  bool check(const std::string& err) {
    int bad = err.empty() ? 0 : 1, any = 0;
    MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (bad) { printf("FAIL %s seed %ld case %d ranks %d rank %d: %s || input: %s\n", name, seed, cur, PCU_Comm_Peers(), PCU_Comm_Self(), err.c_str(), cdesc.c_str()); fflush(stdout); }
    if (any) failed = true;
    return !any;
  }
  int finish() {
    if (!PCU_Comm_Self()) { printf("DONE %s cases %d nontrivial %d ranks %d\n", name, ran, nontrivial, PCU_Comm_Peers()); fflush(stdout); }
    MPI_Barrier(MPI_COMM_WORLD);
    EnGPar_Finalize();
    PCU_Comm_Free();
    MPI_Finalize();
    return failed ? 1 : 0;
  }
};
#endif
