// splitting and repartitioning: the partitioners are replaced by stand-ins that check what they are handed
// against the model and answer with a random assignment; the result is compared with that assignment
#include "common.h"
#include <agiMigration.h>
#include <engpar.h>
#include <engpar_split_input.h>
#include <parmetis.h>
#include <zoltan.h>
using namespace engpar;
static Model* M;              // owners are ranks of the small communicator (world repartition: of PCU)
static Ngraph* G;
static bool isOrig, isLocal;
static int smallRank, S, wantParts, etypeWanted;
static double wantTol;
static Rng* RR;               // own stream of every rank
static std::ostringstream* E;
static std::map<Gid, int> assigned;        // global id -> part the partitioner answered
static int calls;
static std::vector<int> localOrder() {
  std::vector<int> o;
  VertexIterator* vi = G->begin();
  GraphVertex* v;
  while ((v = G->iterate(vi))) o.push_back(M->at[G->globalID(v)]);
  return o;
}
// neighbours of v over the edges of a type, with the weight of the edges leading there
static std::map<int, double> neighbours(int v, int t) {
  std::map<int, double> n;
  for (size_t e = 0; e < M->t[t].e.size(); e++) {
    const MEdge& x = M->t[t].e[e];
    if (!M->hyper) { if (x.pins[0] == v && x.pins[1] != v) n[x.pins[1]] += x.w; }
    else if (std::find(x.pins.begin(), x.pins.end(), v) != x.pins.end())
      for (size_t k = 0; k < x.pins.size(); k++) if (x.pins[k] != v) n[x.pins[k]] += x.w;
  }
  return n;
}
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* adjwgt, idx_t* wgtflag, idx_t* numflag,
                                    idx_t* ncon, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t*, idx_t* edgecut, idx_t* part, MPI_Comm* comm) {
  std::ostringstream& z = *E;
  calls++;
  int cr, cs;
  MPI_Comm_rank(*comm, &cr);
  MPI_Comm_size(*comm, &cs);
  if (!isOrig) z << "partitioner called on a rank without the graph; ";
  if (cs != (isLocal ? 1 : S)) z << "communicator of the partitioner has " << cs << " ranks; ";
  if (!isLocal && cr != smallRank) z << "rank in the communicator of the partitioner is " << cr << "; ";
  std::vector<int> mine = localOrder();
  int n = (int)mine.size();
  // number of every vertex as the partitioner sees it
  std::map<Gid, ll> number;
  std::vector<ll> gl;
  for (int i = 0; i < n; i++) gl.push_back(M->gid[mine[i]]);
  std::vector<int> cnt(cs), dsp(cs);
  MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, *comm);
  ll tot = 0;
  for (int p = 0; p < cs; p++) { dsp[p] = (int)tot; tot += cnt[p]; }
  std::vector<ll> all(tot + 1);
  gl.push_back(0);
  MPI_Allgatherv(gl.data(), n, MPI_LONG_LONG, all.data(), cnt.data(), dsp.data(), MPI_LONG_LONG, *comm);
  for (ll i = 0; i < tot; i++) number[all[i]] = i;
  bool dist = true;
  for (int p = 0; p <= cs; p++) if (vtxdist[p] != (p == cs ? tot : dsp[p])) { z << "vtxdist[" << p << "] is " << vtxdist[p] << " expected " << (p == cs ? tot : dsp[p]) << "; "; dist = false; }
  if (*wgtflag != 3 || *numflag != 0 || *ncon != 1) z << "wgtflag " << *wgtflag << " numflag " << *numflag << " ncon " << *ncon << "; ";
  if (*nparts != wantParts) z << "asked for " << *nparts << " parts, expected " << wantParts << "; ";
  for (int p = 0; p < *nparts; p++) if (fabs(tpwgts[p] - 1.0 / *nparts) > 1e-6) z << "target weight of part " << p << " is " << tpwgts[p] << "; ";
  if (fabs(*ubvec - wantTol) > 1e-6) z << "tolerance is " << *ubvec << "; ";
  if (xadj[0] != 0) z << "xadj[0] is " << xadj[0] << "; ";
  for (int i = 0; i < n && dist; i++) {
    if (vwgt[i] != (idx_t)M->w[mine[i]]) z << "weight of vertex " << M->gid[mine[i]] << " is " << vwgt[i] << " expected " << M->w[mine[i]] << "; ";
    std::map<int, double> nb = neighbours(mine[i], etypeWanted);
    std::map<ll, double> ex, got;
    for (std::map<int, double>::iterator k = nb.begin(); k != nb.end(); ++k) if (!isLocal || M->own[k->first] == smallRank) ex[number[M->gid[k->first]]] = k->second;
    if (xadj[i + 1] - xadj[i] != (idx_t)ex.size()) { z << "vertex " << M->gid[mine[i]] << " has " << xadj[i + 1] - xadj[i] << " neighbours, expected " << ex.size() << "; "; break; }
    for (idx_t k = xadj[i]; k < xadj[i + 1]; k++) got[adjncy[k]] = adjwgt[k];
    if (got != ex) {
      z << "neighbours of vertex " << M->gid[mine[i]] << " are";
      for (std::map<ll, double>::iterator k = got.begin(); k != got.end(); ++k) z << ' ' << k->first << ":" << k->second;
      z << " expected";
      for (std::map<ll, double>::iterator k = ex.begin(); k != ex.end(); ++k) z << ' ' << k->first << ":" << k->second;
      z << "; ";
      break;
    }
  }
  for (int i = 0; i < n; i++) { part[i] = (idx_t)RR->below(wantParts); assigned[M->gid[mine[i]]] = (int)part[i]; }
  *edgecut = 0;
  return METIS_OK;
}
// ------------------------------------------------------------------ stand-in for Zoltan
struct Zoltan_Struct { MPI_Comm comm; std::map<std::string, std::string> par; std::map<int, std::pair<void (*)(), void*> > fn; };
static std::vector<int> largeOfSmall;
extern "C" int Zoltan_Initialize(int, char**, float*) { return ZOLTAN_OK; }
extern "C" struct Zoltan_Struct* Zoltan_Create(MPI_Comm c) { Zoltan_Struct* z = new Zoltan_Struct; z->comm = c; return z; }
extern "C" void Zoltan_Destroy(struct Zoltan_Struct** z) { delete *z; *z = NULL; }
extern "C" int Zoltan_Set_Param(struct Zoltan_Struct* z, const char* n, const char* v) { z->par[n] = v; return ZOLTAN_OK; }
extern "C" int Zoltan_Set_Fn(struct Zoltan_Struct* z, ZOLTAN_FN_TYPE t, void (*f)(), void* d) { z->fn[(int)t] = std::make_pair(f, d); return ZOLTAN_OK; }
extern "C" int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) { free(*a); free(*b); free(*c); free(*d); *a = *b = NULL; *c = *d = NULL; return ZOLTAN_OK; }
extern "C" int Zoltan_LB_Partition(struct Zoltan_Struct* zz, int* changes, int* ngid, int* nlid, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it,
                                   int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  std::ostringstream& z = *E;
  calls++;
  *changes = 1; *ngid = *nlid = 1; *ni = 0; *ig = *il = NULL; *ip = *it = NULL;
  int ierr = -7, cr;
  MPI_Comm_rank(zz->comm, &cr);
#define FN(t, ty) ((ty*)zz->fn[(int)t].first)
#define DA(t) zz->fn[(int)t].second
  std::ostringstream np;
  np << wantParts;
  if (zz->par["NUM_GLOBAL_PARTS"] != np.str()) z << "NUM_GLOBAL_PARTS is " << zz->par["NUM_GLOBAL_PARTS"] << "; ";
  if (fabs(atof(zz->par["IMBALANCE_TOL"].c_str()) - wantTol) > 1e-5) z << "IMBALANCE_TOL is " << zz->par["IMBALANCE_TOL"] << "; ";
  if (zz->par["LB_METHOD"] != (M->hyper ? "HYPERGRAPH" : "GRAPH")) z << "LB_METHOD is " << zz->par["LB_METHOD"] << "; ";
  std::vector<int> mine;
  if (isOrig) mine = localOrder();
  int n = FN(ZOLTAN_NUM_OBJ_FN_TYPE, ZOLTAN_NUM_OBJ_FN)(DA(ZOLTAN_NUM_OBJ_FN_TYPE), &ierr);
  if (n != (int)mine.size() || ierr != ZOLTAN_OK) { z << "number of objects is " << n << " expected " << mine.size() << "; "; n = (int)mine.size(); }
  std::vector<ZOLTAN_ID_TYPE> gid(n + 1), lid(n + 1);
  std::vector<float> w(n + 1);
  FN(ZOLTAN_OBJ_LIST_FN_TYPE, ZOLTAN_OBJ_LIST_FN)(DA(ZOLTAN_OBJ_LIST_FN_TYPE), 1, 1, gid.data(), lid.data(), 1, w.data(), &ierr);
  for (int i = 0; i < n; i++) {
    if (gid[i] != (ZOLTAN_ID_TYPE)M->gid[mine[i]] || w[i] != (float)M->w[mine[i]]) z << "object " << i << " is " << gid[i] << " with weight " << w[i] << " expected " << M->gid[mine[i]] << " with weight " << M->w[mine[i]] << "; ";
  }
  if (M->hyper) {
    int nv = 0, npins = 0, fmt = -1;
    FN(ZOLTAN_HG_SIZE_CS_FN_TYPE, ZOLTAN_HG_SIZE_CS_FN)(DA(ZOLTAN_HG_SIZE_CS_FN_TYPE), &nv, &npins, &fmt, &ierr);
    std::map<int, std::set<ll> > ex;
    int tot = 0;
    for (size_t i = 0; i < mine.size(); i++) for (size_t e = 0; e < M->t[0].e.size(); e++)
      if (std::find(M->t[0].e[e].pins.begin(), M->t[0].e[e].pins.end(), mine[i]) != M->t[0].e[e].pins.end()) { ex[(int)i].insert(M->t[0].e[e].gid); tot++; }
    if (nv != n || fmt != ZOLTAN_COMPRESSED_VERTEX) z << "hypergraph has " << nv << " lists of format " << fmt << "; ";
    else if (npins != tot) z << "hypergraph has " << npins << " pins in the lists of its " << n << " vertices, expected " << tot << "; ";
    else {
      std::vector<ZOLTAN_ID_TYPE> vg(n + 1), eg_(tot + 1);
      std::vector<int> off(n + 1);
      FN(ZOLTAN_HG_CS_FN_TYPE, ZOLTAN_HG_CS_FN)(DA(ZOLTAN_HG_CS_FN_TYPE), 1, nv, npins, fmt, vg.data(), off.data(), eg_.data(), &ierr);
      for (int i = 0; i < n; i++) {
        int b = off[i], e = i + 1 < n ? off[i + 1] : npins;
        std::set<ll> got;
        for (int k = b; k < e && k <= tot && k >= 0; k++) got.insert(eg_[k]);
        if (vg[i] != (ZOLTAN_ID_TYPE)M->gid[mine[i]] || got != ex[i] || (int)got.size() != e - b) z << "edge list of vertex " << vg[i] << " has " << e - b << " entries, expected those of vertex " << M->gid[mine[i]] << " (" << ex[i].size() << "); ";
      }
    }
    int nw = -1;
    FN(ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE, ZOLTAN_HG_SIZE_EDGE_WTS_FN)(DA(ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE), &nw, &ierr);
    std::map<ll, double> wex, wgot;
    if (isOrig) for (size_t e = 0; e < M->t[0].e.size(); e++) if (onRank(*M, M->t[0].e[e], smallRank)) wex[M->t[0].e[e].gid] = M->t[0].e[e].w;
    if (nw != (int)wex.size()) z << "weights of " << nw << " edges, expected " << wex.size() << "; ";
    else {
      std::vector<ZOLTAN_ID_TYPE> a(nw + 1), b(nw + 1);
      std::vector<float> c(nw + 1);
      FN(ZOLTAN_HG_EDGE_WTS_FN_TYPE, ZOLTAN_HG_EDGE_WTS_FN)(DA(ZOLTAN_HG_EDGE_WTS_FN_TYPE), 1, 1, nw, 1, a.data(), b.data(), c.data(), &ierr);
      for (int i = 0; i < nw; i++) wgot[a[i]] = c[i];
      if (wgot != wex) z << "edge weights differ; ";
    }
  } else for (int i = 0; i < n; i++) {
    int k = FN(ZOLTAN_NUM_EDGES_FN_TYPE, ZOLTAN_NUM_EDGES_FN)(DA(ZOLTAN_NUM_EDGES_FN_TYPE), 1, 1, &gid[i], &lid[i], &ierr);
    std::multiset<std::pair<ll, std::pair<int, double> > > ex, got;
    for (size_t e = 0; e < M->t[0].e.size(); e++) if (M->t[0].e[e].pins[0] == mine[i])
      ex.insert(std::make_pair(M->gid[M->t[0].e[e].pins[1]], std::make_pair(largeOfSmall[M->own[M->t[0].e[e].pins[1]]], M->t[0].e[e].w)));
    if (k != (int)ex.size()) { z << "vertex " << gid[i] << " has " << k << " edges, expected " << ex.size() << "; "; continue; }
    std::vector<ZOLTAN_ID_TYPE> nb(k + 1);
    std::vector<int> ow(k + 1);
    std::vector<float> ew(k + 1);
    FN(ZOLTAN_EDGE_LIST_FN_TYPE, ZOLTAN_EDGE_LIST_FN)(DA(ZOLTAN_EDGE_LIST_FN_TYPE), 1, 1, &gid[i], &lid[i], nb.data(), ow.data(), 1, ew.data(), &ierr);
    for (int j = 0; j < k; j++) got.insert(std::make_pair((ll)nb[j], std::make_pair(ow[j], (double)ew[j])));
    if (got != ex) { z << "edges of vertex " << gid[i] << " to [vertex@part:weight]"; for (std::multiset<std::pair<ll, std::pair<int, double> > >::iterator q = got.begin(); q != got.end(); ++q) z << ' ' << q->first << '@' << q->second.first << ':' << q->second.second;
      z << " expected"; for (std::multiset<std::pair<ll, std::pair<int, double> > >::iterator q = ex.begin(); q != ex.end(); ++q) z << ' ' << q->first << '@' << q->second.first << ':' << q->second.second; z << "; "; }
  }
  *eg = (ZOLTAN_ID_PTR)malloc((n + 1) * sizeof(ZOLTAN_ID_TYPE));
  *el = (ZOLTAN_ID_PTR)malloc((n + 1) * sizeof(ZOLTAN_ID_TYPE));
  *ep = (int*)malloc((n + 1) * sizeof(int));
  *et = (int*)malloc((n + 1) * sizeof(int));
  int c = 0;
  for (int k = 0; k < n; k++) {
    int i = n - 1 - k;
    int dst = (int)RR->below(wantParts);
    assigned[M->gid[mine[i]]] = dst;
    if (dst == cr) continue;
    (*eg)[c] = gid[i]; (*el)[c] = lid[i]; (*ep)[c] = (*et)[c] = dst;
    c++;
  }
  *ne = c;
  return ZOLTAN_OK;
}
// ------------------------------------------------------------------
int main(int argc, char** argv) {
  Run R(argc, argv, "d_split");
  int P = PCU_Comm_Peers();
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 5779 + i * 31 + P);
    int mode = (int)r.below(4);   // 0 global ParMETIS, 1 local ParMETIS, 2 Zoltan, 3 repartition
    int sf = 1;
    MPI_Comm large = MPI_COMM_WORLD, small;
    std::vector<int> perm;        // world rank -> large rank
    for (int p = 0; p < P; p++) perm.push_back(p);
    bool own = r.coin(3);
    if (own) shuffle_(perm, r);
    int wr;
    MPI_Comm_rank(MPI_COMM_WORLD, &wr);
    int lr = perm[wr];
    S = (int)r.range(1, P);
    if (mode == 1) { std::vector<int> dv; for (int k = 1; k <= P; k++) if (P % k == 0) dv.push_back(k); sf = dv[r.below(dv.size())]; S = P / sf; }
    if (mode == 3) S = P;
    std::vector<int> so;          // large ranks of the originals, in the order of the small communicator
    for (int p = 0; p < P; p++) so.push_back(p);
    int lay = (int)r.below(3);
    if (lay == 1 && mode != 3) { std::vector<int> z; for (int k = 0; k < P; k++) if (k % (P / S) == 0 && (int)z.size() < S) z.push_back(k); so = z; }
    else if (lay == 2 && mode != 3) shuffle_(so, r);
    so.resize(S);
    largeOfSmall = so;
    isOrig = false;
    for (int k = 0; k < S; k++) if (so[k] == lr) { isOrig = true; smallRank = k; }
    GenOpt o;
    o.bothways = true;
    o.biggids = mode != 2;
    o.maxv = r.coin() ? 10 : 22;
    Model m = gen(r, S, o);
    wholeWeights(m, r, r.coin(3) ? 1 : 9);
    M = &m;
    int T = (int)m.t.size();
    isLocal = mode == 1;
    etypeWanted = mode == 2 ? 0 : (int)r.below(T);
    wantTol = 1.0 + (double)r.range(1, 20) / 20;
    wantParts = mode == 1 ? sf : P;
    std::vector<int> slots;       // local split: where the pieces of every original go
    for (int p = 0; p < P; p++) slots.push_back(p);
    shuffle_(slots, r);
    std::ostringstream d;
    d << (mode == 0 ? "global ParMETIS split" : mode == 1 ? "local ParMETIS split" : mode == 2 ? "Zoltan split" : "repartition") << " over type " << etypeWanted << ", originals (ranks of the large communicator)";
    for (int k = 0; k < S; k++) d << ' ' << so[k];
    d << (own ? ", permuted large communicator, " : ", ") << show(m);
    R.begin(i, d.str());
    if (m.n() > 3 && P > 1) R.nontrivial++;
    if (own) MPI_Comm_split(MPI_COMM_WORLD, 0, lr, &large);
    MPI_Comm_split(large, isOrig ? 0 : 1, isOrig ? smallRank : lr, &small);
    std::ostringstream err;
    E = &err;
    Rng mine(r.next() + 977 * lr);
    RR = &mine;
    assigned.clear();
    calls = 0;
    EnGPar_Switch_Comm(small);
    Ngraph* g = createEmptyGraph();
    G = g;
    if (isOrig) build(m, r, 0, true, g);
    std::vector<part_t> others;
    bool ok = true;
    if (mode < 3) {
      for (int k = 0; k < sf; k++) others.push_back(isOrig ? slots[smallRank * sf + k] : 0);
      Input* in = mode == 1 ? createLocalSplitInput(g, small, large, isOrig, sf, wantTol, others.data(), etypeWanted)
                            : createGlobalSplitInput(g, small, large, isOrig, wantTol, etypeWanted);
      split(in, mode == 0 ? GLOBAL_PARMETIS : mode == 1 ? LOCAL_PARMETIS : ZOLTAN_PHG);
      if (calls != (isOrig || mode == 2)) err << "the partitioner was called " << calls << " times; ";
      if (mode == 1) for (std::map<Gid, int>::iterator q = assigned.begin(); q != assigned.end(); ++q) q->second = others[q->second];
    } else {
      EnGPar_Switch_Comm(large);
      std::vector<int> v = localOrder();
      std::vector<part_t> dst;
      for (size_t k = 0; k < v.size(); k++) { dst.push_back((part_t)RR->below(P)); assigned[m.gid[v[k]]] = dst[k]; }
      dst.push_back(0);
      g->repartition(dst.data());
    }
    ok = R.check(err.str());
    int same, want;
    MPI_Comm_compare(PCU_Get_Comm(), large, &same);
    want = same == MPI_IDENT || same == MPI_CONGRUENT;
    if (ok) ok = R.check(want ? "" : "the library is not left on the large communicator");
    if (ok) {
      std::vector<int> first(m.n()), asg(m.n(), 0), a2(m.n());
      for (int v = 0; v < m.n(); v++) { first[v] = so[m.own[v]]; if (assigned.count(m.gid[v])) asg[v] = assigned[m.gid[v]] + 1; }
      MPI_Allreduce(asg.data(), a2.data(), m.n(), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
      m.ranks = P;
      std::string e = regather(g, m);
      for (int v = 0; v < m.n() && e.empty(); v++) if (m.own[v] != a2[v] - 1) { std::ostringstream z; z << "vertex " << m.gid[v] << " is on part " << m.own[v] << " but was assigned to part " << a2[v] - 1; e = z.str(); }
      ok = R.check(e);
      if (ok) ok = R.check(compare(g, m, CK_ALL));
      if (ok) ok = R.check(partsOk(g, m, first));
    }
    if (!ok) break;
    destroyGraph(g);
    EnGPar_Switch_Comm(MPI_COMM_WORLD);
    MPI_Comm_free(&small);
    if (own) MPI_Comm_free(&large);
  }
  return R.finish();
}
