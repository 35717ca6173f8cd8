// communication phases against a reference: what every rank must receive is recomputed from the seed
#include "common.h"
#include <unistd.h>
// schedules: a probe or test of a message may answer "not yet" any finite number of times.  lagU/lagC: percentage
// of such answers on this rank for the messages of a phase and for the protocol's own messages
extern "C" { extern MPI_Comm pcu_user_comm; extern MPI_Comm pcu_coll_comm; }
static int lagU = 0, lagC = 0, lagT = 0;
static uint64_t lagS = 1;
static bool lag(int pc) {
  if (!pc) return false;
  lagS = lagS * 6364136223846793005ull + 1442695040888963407ull;
  return (int)((lagS >> 33) % 100) < pc;
}
extern "C" int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  if (lag(c == pcu_user_comm ? lagU : c == pcu_coll_comm ? lagC : 0)) { *flag = 0; return MPI_SUCCESS; }
  return PMPI_Iprobe(src, tag, c, flag, st);
}
extern "C" int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  if (*r != MPI_REQUEST_NULL && lag(lagT)) { *flag = 0; return MPI_SUCCESS; }
  return PMPI_Test(r, flag, st);
}
struct Item { std::vector<unsigned char> b; };
typedef std::vector<std::vector<Item> > Plan;   // per destination: the blocks packed, in order
static Plan plan(uint64_t seed, int from, int np, int style) {
  Rng r(seed * 1000003 + from * 7919 + 17);
  Plan p(np);
  bool silent = r.coin(5);
  for (int d = 0; d < np; d++) {
    if (silent || (style != 3 && r.coin(3))) continue;
    int k = (int)r.range(1, style == 2 ? 40 : 5);
    for (int i = 0; i < k; i++) {
      Item it;
      int sz = r.coin(5) ? 0 : (int)r.range(1, 9);
      if (r.coin(12)) sz = (int)r.range(10, 5000);
      if (style == 4 && r.coin(6)) sz = (int)r.range(60000, 300000);
      it.b.resize(sz);
      for (int j = 0; j < sz; j++) it.b[j] = (unsigned char)r.next();
      p[d].push_back(it);
    }
  }
  return p;
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_comm");
  int me = PCU_Comm_Self(), np = PCU_Comm_Peers();
  bool ordered = false;
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 6151 + i * 31 + np);
    int style = (int)r.below(5);
    bool wr = r.coin(3);
    if (r.coin(3)) { ordered = !ordered; PCU_Comm_Order(ordered); }
    bool listen = r.coin(3);
    uint64_t s = r.next() % 1000000007ull;
    std::ostringstream d;
    d << "style " << style << (wr ? " write/read" : " pack/unpack") << (ordered ? " ordered" : "") << (listen ? " listen" : " receive") << " plan seed " << s;
    R.begin(i, d.str());
    if (np > 1) R.nontrivial++;
    Rng q(s + me * 101);
    std::vector<Plan> all;
    for (int p = 0; p < np; p++) all.push_back(plan(s, p, np, style));
    std::string err;
    static const int pcs[] = {0, 0, 50, 90, 99};
    lagS = s + me * 77 + 1;
    lagU = pcs[q.below(5)]; lagC = pcs[q.below(5)]; lagT = pcs[q.below(5)];
    if (q.coin(4)) usleep(q.below(600));
    PCU_Comm_Begin();
    // blocks to different peers interleaved
    std::vector<int> left;
    for (int p = 0; p < np; p++) for (size_t k = 0; k < all[me][p].size(); k++) left.push_back(p);
    shuffle_(left, q);
    std::vector<size_t> at(np, 0), bytes(np, 0);
    for (size_t k = 0; k < left.size(); k++) {
      int p = left[k];
      Item& it = all[me][p][at[p]++];
      if (wr) PCU_Comm_Write(p, it.b.data(), it.b.size());
      else PCU_Comm_Pack(p, it.b.data(), it.b.size());
      bytes[p] += it.b.size() + (wr ? sizeof(size_t) : 0);
      if (err.empty() && q.coin()) {
        size_t z = 99;
        PCU_Comm_Packed(p, &z);
        if (z != bytes[p]) { std::ostringstream m; m << "packed size for " << p << " is " << z << " expected " << bytes[p]; err = m.str(); }
      }
    }
    if (q.coin(4)) usleep(q.below(600));
    PCU_Comm_Send();
    std::vector<int> got(np, 0), cnt(np, 0);
    int last = -1;
    if (wr) {
      int from; void* data; size_t sz;
      std::vector<size_t> nx(np, 0);
      while (PCU_Comm_Read(&from, &data, &sz)) {
        std::ostringstream m;
        if (from < 0 || from >= np) { err = "sender out of range"; continue; }
        if (nx[from] >= all[from][me].size()) m << "more messages from " << from << " than it wrote";
        else {
          Item& it = all[from][me][nx[from]];
          if (sz != it.b.size()) m << "message " << nx[from] << " from " << from << " has size " << sz << " expected " << it.b.size();
          else if (sz && memcmp(data, it.b.data(), sz)) m << "message " << nx[from] << " from " << from << " has other bytes";
        }
        nx[from]++;
        if (ordered && from < last) m << "sender " << from << " after " << last << " although ordering is on";
        last = from;
        if (err.empty()) err = m.str();
      }
      for (int p = 0; p < np && err.empty(); p++) if (nx[p] != all[p][me].size()) { std::ostringstream m; m << "received " << nx[p] << " of " << all[p][me].size() << " messages from " << p; err = m.str(); }
    } else {
      while (listen ? PCU_Comm_Listen() : PCU_Comm_Receive()) {
        int from = PCU_Comm_Sender(), f2 = -5;
        std::ostringstream m;
        if (from < 0 || from >= np) { err = "sender out of range"; size_t z; PCU_Comm_Received(&z); PCU_Comm_Extract(z); continue; }
        if (PCU_Comm_From(&f2) || f2 != from) m << "PCU_Comm_From says " << f2 << " and PCU_Comm_Sender " << from;
        if (cnt[from]++) m << "second buffer from " << from << " in one phase";
        if (ordered && from < last) m << "sender " << from << " after " << last << " although ordering is on";
        last = from;
        std::vector<unsigned char> ex;
        for (size_t k = 0; k < all[from][me].size(); k++) ex.insert(ex.end(), all[from][me][k].b.begin(), all[from][me][k].b.end());
        size_t z = 77;
        PCU_Comm_Received(&z);
        if (all[from][me].empty()) m << "buffer from " << from << " which packed nothing for this rank";
        if (z != ex.size()) m << "received size from " << from << " is " << z << " expected " << ex.size();
        std::vector<unsigned char> in;
        size_t off = 0;
        if (z > 100000000) { err = m.str(); break; }
        while (off < z) {
          if (PCU_Comm_Unpacked()) { m << "end of data reported after " << off << " of " << z << " bytes"; PCU_Comm_Extract(z - off); break; }
          size_t step = std::min((size_t)q.range(0, q.coin(3) ? 4000 : 9), z - off);
          if (q.coin()) { unsigned char* p = (unsigned char*)PCU_Comm_Extract(step); in.insert(in.end(), p, p + step); }
          else {
            std::vector<unsigned char> t(step + 2, 0xAB);
            PCU_Comm_Unpack(t.data() + 1, step);
            if (t[0] != 0xAB || t[step + 1] != 0xAB) m << "unpack wrote outside its block";
            in.insert(in.end(), t.begin() + 1, t.begin() + 1 + step);
          }
          off += step;
        }
        if (!PCU_Comm_Unpacked()) m << "end of data not reported after all " << z << " bytes from " << from;
        if (m.str().empty() && in != ex) m << "bytes from " << from << " differ from those packed";
        if (err.empty()) err = m.str();
      }
      for (int p = 0; p < np && err.empty(); p++) {
        size_t tot = 0;
        for (size_t k = 0; k < all[p][me].size(); k++) tot += all[p][me][k].b.size();
        int ex = listen ? !all[p][me].empty() : tot > 0;
        if (cnt[p] != ex) { std::ostringstream m; m << "nothing received from " << p << " which packed " << tot << " bytes"; err = m.str(); }
      }
    }
    if (!R.check(err)) break;
  }
  return R.finish();
}
