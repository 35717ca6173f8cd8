// traversal queues against a reference breadth-first search on the model
#include "common.h"
#include <engpar_diffusive_input.h>
#include <engpar_queue.h>
using namespace engpar;
static std::vector<GraphEdge*> drain(Queue* q) {
  std::vector<GraphEdge*> v;
  q->startIteration();
  for (Queue::iterator i = q->begin(); i != q->end(); i++) { v.push_back(q->get(i)); q->addElement((*q)[i]); }
  std::vector<GraphEdge*> w;
  q->startIteration();
  for (Queue::iterator i = q->begin(); i != q->end(); i++) w.push_back(q->get(i));
  if (v != w) v.push_back(NULL);
  return v;
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_queue");
  int P = PCU_Comm_Peers(), me = PCU_Comm_Self();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 6007 + i * 19 + P);
    GenOpt o;
    o.bothways = true;
    o.maxtypes = 2;
    int shape = (int)r.below(3);
    o.maxv = shape == 0 ? 12 : 40;
    o.maxe = shape == 0 ? 14 : shape == 1 ? 30 : 60;
    o.maxpins = shape == 1 ? 3 : 4;
    bool dist = r.coin(3) ? false : true;
    if (dist) o.hyper = 1;
    Model m = gen(r, P, o);
    if (dist && r.coin()) {
      // long chains: several connected pieces with deep interiors
      m.t[0].e.clear();
      int n = m.n(), len = (int)r.range(2, 12);
      for (int v = 0; v + 1 < n; v++) {
        if (v % len == len - 1) continue;
        MEdge x;
        x.gid = 3 * v + 1;
        x.w = 1;
        x.pins.push_back(v);
        x.pins.push_back(v + 1);
        if (r.coin(4) && v + 2 < n) x.pins.push_back(v + 2);
        m.t[0].e.push_back(x);
      }
      for (int v = 0; v < n; v++) m.own[v] = r.coin(6) ? (int)r.below(P) : std::min(P - 1, v * P / n);
    }
    bool push = r.coin();
    std::ostringstream d;
    d << (dist ? push ? "distance queue (push)" : "distance queue (pull)" : "iteration queue") << " of " << show(m);
    R.begin(i, d.str());
    if (m.n() > 3 && P > 1) R.nontrivial++;
    Ngraph* g = build(m, r, 0);
    // reference: local edges of type 0, cut flags
    std::string err;
    std::map<GraphEdge*, int> id;
    std::vector<GraphEdge*> es;
    std::vector<std::set<int> > pins;
    EdgeIterator* ei = g->begin(0);
    GraphEdge* e;
    while ((e = g->iterate(ei))) {
      id[e] = (int)es.size();
      es.push_back(e);
      std::set<int> ps;
      PinIterator* pi = g->pins(e);
      GraphVertex* v;
      while ((v = g->iterate(pi))) ps.insert(m.at[g->globalID(v)]);
      g->destroy(pi);
      pins.push_back(ps);
    }
    g->destroy(ei);
    int n = (int)es.size();
    std::vector<bool> cut(n, false);
    int ncut = 0;
    for (int a = 0; a < n; a++) {
      for (std::set<int>::iterator q = pins[a].begin(); q != pins[a].end(); ++q) if (m.own[*q] != me) cut[a] = true;
      ncut += cut[a];
    }
    DiffusiveInput* in = static_cast<DiffusiveInput*>(createDiffusiveInput(g, 0.1));
    in->bfsPush = push;
    Queue* q = dist ? createDistanceQueue(in) : createIterationQueue(g);
    std::vector<GraphEdge*> out = drain(q);
    std::vector<int> seen(n, 0);
    std::ostringstream s;
    for (size_t k = 0; k < out.size(); k++) {
      if (!id.count(out[k])) { s << "queue yields something that is no local edge of type 0 (or does not keep its elements)"; break; }
      int a = id[out[k]];
      if (!cut[a]) { s << "queue contains an edge that is not cut"; break; }
      if (seen[a]++) { s << "queue contains an edge twice"; break; }
    }
    if (s.str().empty() && (int)out.size() != ncut) s << "queue has " << out.size() << " edges, " << ncut << " are cut";
    if (s.str().empty() && dist) {
      std::vector<std::vector<int> > adj(n);
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b)
        for (std::set<int>::iterator z = pins[a].begin(); z != pins[a].end(); ++z) if (m.own[*z] == me && pins[b].count(*z)) { adj[a].push_back(b); break; }
      std::vector<int> comp(n, -1), dep(n, -1), dis(n, -1);
      std::vector<int> fifo;
      for (int a = 0; a < n; a++) if (cut[a]) { dep[a] = 0; fifo.push_back(a); }
      for (size_t h = 0; h < fifo.size(); h++) for (size_t k = 0; k < adj[fifo[h]].size(); k++) { int b = adj[fifo[h]][k]; if (dep[b] < 0) { dep[b] = dep[fifo[h]] + 1; fifo.push_back(b); } }
      int nc = 0;
      for (int a = 0; a < n; a++) if (comp[a] < 0) {
        std::vector<int> st(1, a);
        comp[a] = nc;
        for (size_t h = 0; h < st.size(); h++) for (size_t k = 0; k < adj[st[h]].size(); k++) { int b = adj[st[h]][k]; if (comp[b] < 0) { comp[b] = nc; st.push_back(b); } }
        int mx = -1;
        for (size_t h = 0; h < st.size(); h++) mx = std::max(mx, dep[st[h]]);
        std::vector<int> f2;
        if (mx >= 0) for (size_t h = 0; h < st.size(); h++) if (dep[st[h]] == mx) { dis[st[h]] = 0; f2.push_back(st[h]); }
        for (size_t h = 0; h < f2.size(); h++) for (size_t k = 0; k < adj[f2[h]].size(); k++) { int b = adj[f2[h]][k]; if (dis[b] < 0) { dis[b] = dis[f2[h]] + 1; f2.push_back(b); } }
        nc++;
      }
      std::set<int> done;
      for (size_t k = 0; k < out.size(); k++) {
        int a = id[out[k]];
        if (k) {
          int b = id[out[k - 1]];
          if (comp[a] != comp[b]) { done.insert(comp[b]); if (done.count(comp[a])) { s << "edges of one connected component are not contiguous at position " << k; break; } }
          else if (dis[a] > dis[b]) { s << "edge at position " << k << " has distance " << dis[a] << " from the centre after one with distance " << dis[b]; break; }
        }
      }
    }
    err = s.str();
    bool ok = R.check(err);
    delete q;
    delete in;
    destroyGraph(g);
    if (!ok) break;
  }
  return R.finish();
}
