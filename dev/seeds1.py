import sys
sys.path.insert(0, '/verif/dev')
from seedlib import seed
PRE = r'''
#include <bitset>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <string>
#include <unordered_map>
#include <vector>
extern "C" {
#include <sdd/sddapi.h>
}
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
typedef std::bitset<MAX_VAR> Bits;
static PsddParameter D(double x) { return PsddParameter::CreateFromDecimal(x); }
static double val(const PsddParameter &p) { return std::exp(p.parameter()); }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }
static PsddManager *manager(int n, const char *shape) {
  Vtree *v = sdd_vtree_new(n, shape);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
  return m;
}
'''
only = sys.argv[1:]


def S(sid, *a, **k):
    if not only or sid in only:
        seed(sid, *a, **k)



S('eval_shared_prime', 'C01', [('src/psdd_node.cpp', '''        PsddNode *cur_sub = cur_decn_node->subs()[i];
        cur_prob = cur_prob + evaluation_cache''', '''        PsddNode *cur_sub = cur_decn_node->subs()[i];
        if (i > 0 && cur_prime == cur_decn_node->primes()[i - 1])
          continue;
        cur_prob = cur_prob + evaluation_cache''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *x = m->GetPsddTopNode(1, 0, D(0.3), D(0.7));
  PsddNode *a = m->GetPsddLiteralNode(2, 0), *b = m->GetPsddLiteralNode(-2, 0);
  PsddNode *r = m->GetConformedPsddDecisionNode({x, x}, {a, b}, {D(0.4), D(0.6)}, 0);
  Bits none;
  CHECK(near(val(psdd_node_util::Evaluate(none, none, r)), 1.0));
  return 0;
}
''', 'a decision node with two consecutive elements that share one prime', 'the second of two elements with the same prime is left out of the sum')

S('marg_shared_sub', 'C02', [('src/psdd_node.cpp', '''        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] + cur_derivative * params[i];''', '''        if (subs[i]->node_type() == TOP_NODE_TYPE) {
          derivatives[subs[i]->user_data()] = cur_derivative * params[i];
          continue;
        }
        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] + cur_derivative * params[i];''')], PRE + r'''
int main() {
  PsddManager *m = manager(3, "right");
  PsddNode *a = m->GetPsddLiteralNode(2, 0), *na = m->GetPsddLiteralNode(-2, 0);
  PsddNode *c = m->GetPsddTopNode(3, 0, D(0.25), D(0.75)), *l = m->GetPsddLiteralNode(3, 0);
  PsddNode *s1 = m->GetConformedPsddDecisionNode({a, na}, {c, l}, {D(0.5), D(0.5)}, 0);
  PsddNode *s2 = m->GetConformedPsddDecisionNode({a, na}, {l, c}, {D(0.2), D(0.8)}, 0);
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0), m->GetPsddLiteralNode(-1, 0)}, {s1, s2}, {D(0.4), D(0.6)}, 0);
  auto mg = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(r));
  double shared = 0.4 * 0.5 + 0.6 * 0.8;
  CHECK(near(val(mg[3].second), shared * 0.25 + (1 - shared)));
  return 0;
}
''', 'a free-variable node used as sub by several elements of different nodes', 'the mass of a shared free-variable node is that of its last parent only')

S('param_plus_overflow', 'C18', [('src/psdd_parameter.cpp', 'if (parameter_ > other.parameter_)', 'if (std::fabs(parameter_) > std::fabs(other.parameter_))')], PRE + r'''
int main() {
  PsddParameter tiny = PsddParameter::CreateFromLog(-2000), half = D(0.5);
  CHECK(near((tiny + half).parameter(), std::log(0.5)));
  CHECK(near((half + tiny).parameter(), std::log(0.5)));
  return 0;
}
''', 'adding numbers whose logarithms differ by more than 709', 'the sum is infinite because the larger number is scaled by the smaller one')

S('multiply_cache_order', 'C06', [('src/psdd_manager.cpp', '''    std::pair<PsddNode *, PsddNode *> node_pair(first, second);
    cache_[vtree_index][node_pair] = result;''', '''    std::pair<PsddNode *, PsddNode *> node_pair(first, second);
    if (first->node_type() == TOP_NODE_TYPE)
      node_pair.second = first;
    cache_[vtree_index][node_pair] = result;''')], PRE + r'''
int main() {
  PsddManager *m = manager(3, "right");
  auto L = [&](int l) { return (PsddNode *)m->GetPsddLiteralNode(l, 0); };
  auto N = [&](PsddNode *a, PsddNode *b) { return (PsddNode *)m->GetConformedPsddDecisionNode({L(2), L(-2)}, {a, b}, {D(0.5), D(0.5)}, 0); };
  PsddNode *t = m->GetPsddTopNode(3, 0, D(0.2), D(0.8)), *u = m->GetPsddTopNode(3, 0, D(0.6), D(0.4));
  PsddNode *f = m->GetConformedPsddDecisionNode({L(1), L(-1)}, {N(t, t), N(t, u)}, {D(0.5), D(0.5)}, 0);
  PsddNode *g = m->GetConformedPsddDecisionNode({L(1), L(-1)}, {N(u, t), N(t, u)}, {D(0.5), D(0.5)}, 0);
  auto h = m->Multiply(f, g, 0);
  for (int k = 0; k < 8; ++k) {
    Bits all, in;
    for (int v = 1; v <= 3; ++v) { all.set(v); if (k >> (v - 1) & 1) in.set(v); }
    double a = val(psdd_node_util::Evaluate(all, in, f)), b = val(psdd_node_util::Evaluate(all, in, g)), c = val(psdd_node_util::Evaluate(all, in, h.first));
    CHECK(near(a * b, c * val(h.second)));
  }
  return 0;
}
''', 'a node multiplied first with another node and later with itself', 'the memo table returns the product with the other node')

S('learn_count_left', 'C07', [('src/psdd_node.cpp', '''  for (size_t i = 0; i < element_size; ++i) {
    data_counts_[i] = 0;''', '''  for (size_t i = 0; i + 1 < element_size; ++i) {
    data_counts_[i] = 0;''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *a = m->GetPsddLiteralNode(2, 0), *b = m->GetPsddLiteralNode(-2, 0);
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0), m->GetPsddLiteralNode(-1, 0)}, {a, b}, {D(0.5), D(0.5)}, 0);
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  ex[1] = {true, false, false, false};
  ex[2] = {true, false, false, false};
  auto par = [](PsddNode *n) {
    auto d = n->psdd_decision_node();
    size_t i = d->primes()[0]->psdd_literal_node()->sign() ? 0 : 1;
    return val(d->parameters()[i]);
  };
  PsddNode *l = m->LearnPsddParameters(r, ex, 4, D(0), 1);
  CHECK(near(par(l), 0.25));
  ex[1] = {true, true, true, false};
  ex[2] = {true, true, true, false};
  l = m->LearnPsddParameters(r, ex, 4, D(0), 2);
  CHECK(near(par(l), 0.75));
  return 0;
}
''', 'learning twice from the same structure', 'the count of the last element survives the first learning and is added to the second')

S('write_scratch_root', 'C16', [('src/psdd_node.cpp', '''  output_file.close();
  for (PsddNode *cur_node : serialized_psdds) {
    cur_node->SetUserData(0);
  }''', '''  output_file.close();
  for (auto it = serialized_psdds.rbegin();
       it != serialized_psdds.rend() && (*it)->user_data() + 1 < node_index;
       ++it) {
    (*it)->SetUserData(0);
  }''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0), m->GetPsddLiteralNode(-1, 0)}, {m->GetPsddLiteralNode(2, 0), m->GetPsddLiteralNode(-2, 0)}, {D(0.5), D(0.5)}, 0);
  psdd_node_util::WritePsddToFile(r, "out.psdd");
  for (PsddNode *n : psdd_node_util::SerializePsddNodes(r)) CHECK(n->user_data() == 0);
  return 0;
}
''', 'looking at the scratch slot of the root after writing a file', 'the root keeps its file identifier in the scratch slot')
