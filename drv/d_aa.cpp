// the search tree behind peer lookup and message ordering, against std::set
#include "common.h"
extern "C" {
#include <pcu_aa.h>
}
struct Node { pcu_aa_node n; int key; };
static bool less_(pcu_aa_node* a, pcu_aa_node* b) { return ((Node*)a)->key < ((Node*)b)->key; }
static int mk;
static bool walk(pcu_aa_tree t, std::vector<int>& out, int lv, bool& okl) {
  if (pcu_aa_empty(t)) return true;
  if (out.size() > 100000) return false;
  if (t->level != lv && lv >= 0) okl = okl && t->level <= lv;
  bool b = walk(t->left, out, t->level - 1, okl);
  if (!pcu_aa_empty(t->left) && t->left->level != t->level - 1) okl = false;
  if (pcu_aa_empty(t->left) && t->level != 1) okl = false;
  out.push_back(((Node*)t)->key);
  return b && walk(t->right, out, t->level, okl);
}
int main(int argc, char** argv) {
  Run R(argc, argv, "d_aa");
  (void)mk;
  for (int i = 0; R.more(i); i++) {
    Rng r(R.seed * 911 + i * 7);
    int range = (int)r.range(1, 60), ops = (int)r.range(1, 300);
    std::ostringstream d;
    d << ops << " random operations on keys below " << range;
    R.begin(i, d.str());
    R.nontrivial++;
    std::string err;
    pcu_aa_tree t;
    pcu_make_aa(&t);
    std::map<int, Node*> ref;
    std::vector<Node*> pool;
    for (int k = 0; k < ops && err.empty(); k++) {
      std::ostringstream m;
      int key = (int)r.below(range), op = (int)r.below(5);
      Node kn;
      memset(&kn, 0, sizeof kn);
      kn.key = key;
      if (op <= 1) {
        Node* n = new Node;
        pool.push_back(n);
        n->key = key;
        Node* got = (Node*)pcu_aa_insert(&n->n, &t, less_);
        Node* ex = ref.count(key) ? ref[key] : n;
        if (got != ex) m << "insert of " << key << " returns another node";
        ref[key] = ex;
      } else if (op == 2 && r.coin(3)) {
        Node* got = (Node*)pcu_aa_remove(&kn.n, &t, less_);
        if ((got != 0) != (ref.count(key) > 0) || (got && got != ref[key])) m << "remove of " << key << " returns the wrong node";
        ref.erase(key);
      } else {
        Node* got = (Node*)pcu_aa_find(&kn.n, t, less_);
        if (got != (ref.count(key) ? ref[key] : 0)) m << "find of " << key << " returns the wrong node";
      }
      if (pcu_aa_count(t) != (int)ref.size()) m << "count is " << pcu_aa_count(t) << " expected " << ref.size();
      if (pcu_aa_empty(t) != ref.empty()) m << "empty";
      std::vector<int> out;
      bool ok = true;
      if (!walk(t, out, -1, ok)) m << "tree is not finite";
      std::vector<int> ex;
      for (std::map<int, Node*>::iterator it = ref.begin(); it != ref.end(); ++it) ex.push_back(it->first);
      if (out != ex) m << "in-order walk is not the sorted keys after operation " << k << " (" << op << "," << key << ")";
      err = m.str();
    }
    for (size_t k = 0; k < pool.size(); k++) delete pool[k];
    if (!R.check(err)) break;
  }
  return R.finish();
}
