// Reference models for compiling a UAI network (see node.cpp for how these are used).
#include <cassert>
#include <deque>
#include <fstream>
#include <iostream>
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <psdd/pgm_compiler.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/uai_network.h>
#include <sstream>
using psdd_node_util::SerializePsddNodes;
using vtree_util::SerializeVtree;
typedef std::pair<PsddNode *, PsddParameter> Compiled;

namespace ref {
static Probability one() { return Probability::CreateFromDecimal(1); }
static Probability zero() { return Probability::CreateFromDecimal(0); }

// ---- one factor: variables from the last in vtree order to the first; at every step each
// assignment of the variables still above has a node and the total weight below it
Compiled Factor(PgmCompiler *self, size_t f) {
  std::vector<size_t> scope = self->m_network->m_clusters[f];
  const std::vector<PsddParameter> &table = self->m_network->m_params[f];
  std::reverse(scope.begin(), scope.end());
  std::vector<Vtree *> order = SerializeVtree(self->m_pm->vtree());
  std::vector<Vtree *> leaves;
  for (size_t var : scope)
    for (Vtree *v : order)
      if (sdd_vtree_is_leaf(v) && sdd_vtree_var(v) == var) leaves.push_back(v);
  std::sort(leaves.begin(), leaves.end(),
            [](const Vtree *a, const Vtree *b) { return sdd_vtree_position(a) > sdd_vtree_position(b); });
  std::vector<size_t> bit;
  for (Vtree *leaf : leaves)
    for (size_t j = 0; j < scope.size(); ++j)
      if (scope[j] == sdd_vtree_var(leaf)) {
        bit.push_back(j);
        break;
      }
  assert(bit.size() == scope.size());
  PsddManager *m = self->m_pm;
  std::unordered_map<size_t, PsddNode *> node;
  std::unordered_map<size_t, PsddParameter> norm;
  const PsddParameter none = zero();
  size_t on = 1 << bit[0];
  size_t keep = (size_t)(~0 ^ (1 << bit[0]));
  for (size_t i = 0; i < table.size(); ++i) {
    size_t context = i & keep;
    if (node.find(context) != node.end()) continue;
    PsddParameter neg = table[context], pos = table[context | on];
    PsddParameter total = pos + neg;
    if (total == none) {
      node.insert({context, nullptr});
      norm.insert({context, none});
      continue;
    }
    if (pos == none)
      node.insert({context, m->GetPsddLiteralNode(-sdd_vtree_var(leaves[0]), 0)});
    else if (neg == none)
      node.insert({context, m->GetPsddLiteralNode(sdd_vtree_var(leaves[0]), 0)});
    else
      node.insert({context, m->GetPsddTopNode(sdd_vtree_var(leaves[0]), 0, pos / total, neg / total)});
    norm.insert({context, total});
  }
  for (size_t k = 1; k < leaves.size(); ++k) {
    std::unordered_map<size_t, PsddNode *> above;
    std::unordered_map<size_t, PsddParameter> abovenorm;
    on = 1 << bit[k];
    keep = (size_t)(~0 ^ (1 << bit[k]));
    SddLiteral var = sdd_vtree_var(leaves[k]);
    for (const auto &entry : node) {
      size_t context = entry.first & keep;
      if (above.find(context) != above.end()) continue;
      PsddParameter neg = norm.at(context), pos = norm.at(context | on);
      PsddParameter total = pos + neg;
      if (total == none) {
        above.insert({context, nullptr});
        abovenorm.insert({context, none});
      } else if (pos == none) {
        above.insert({context, m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(-var, 0)}, {node.at(context)}, {one()}, 0)});
        abovenorm.insert({context, neg});
      } else if (neg == none) {
        above.insert({context, m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(var, 0)}, {node.at(context | on)}, {one()}, 0)});
        abovenorm.insert({context, pos});
      } else {
        above.insert({context, m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(var, 0), m->GetPsddLiteralNode(-var, 0)},
                                                         {node.at(context | on), node.at(context)}, {pos / total, neg / total}, 0)});
        abovenorm.insert({context, total});
      }
    }
    node = above;
    norm = abovenorm;
  }
  assert(node.size() == 1);
  assert(node.find(0) != node.end());
  assert(norm.size() == 1);
  assert(norm.find(0) != norm.end());
  return {m->NormalizePsddNode(m->vtree(), node.begin()->second, 0), norm.begin()->second};
}

// ---- the whole network
static std::unordered_map<SddLiteral, Vtree *> Leaves(PgmCompiler *self) {
  std::unordered_map<SddLiteral, Vtree *> leaf;
  for (Vtree *v : SerializeVtree(self->m_pm->vtree()))
    if (sdd_vtree_is_leaf(v)) leaf[sdd_vtree_var(v)] = v;
  return leaf;
}

// factors from the one whose topmost variable is last in vtree order
static std::vector<size_t> Order(PgmCompiler *self, std::vector<PsddNode *> *nodes, PsddParameter *z) {
  std::vector<Vtree *> order = SerializeVtree(self->m_pm->vtree());
  std::unordered_map<SddLiteral, Vtree *> leaf = Leaves(self);
  std::vector<SddLiteral> topmost;
  for (size_t i = 0; i < self->m_network->m_factor_size; ++i) {
    Compiled f = self->compile_factor(i);
    nodes->push_back(f.first);
    *z = *z * f.second;
    SddLiteral best = order.size();
    for (size_t var : self->m_network->m_clusters[i]) best = std::min(best, sdd_vtree_position(leaf[var]));
    topmost.push_back(best);
  }
  std::vector<size_t> ids;
  for (size_t i = 0; i < nodes->size(); ++i) ids.push_back(i);
  std::sort(ids.begin(), ids.end(), [&](const size_t &a, const size_t &b) { return topmost[a] > topmost[b]; });
  return ids;
}

Compiled Network(PgmCompiler *self, size_t) {
  std::vector<PsddNode *> nodes;
  PsddParameter z = one();
  std::vector<size_t> ids = Order(self, &nodes, &z);
  PsddNode *all = nullptr;
  for (size_t i : ids) {
    if (all == nullptr) {
      all = nodes[i];
      continue;
    }
    Compiled p = self->m_pm->Multiply(all, nodes[i], 0);
    all = p.first;
    z = z * p.second;
  }
  return {all, z};
}

Compiled NetworkDc(PgmCompiler *self, size_t gc_freq) {
  std::vector<PsddNode *> nodes;
  PsddParameter z = one();
  std::vector<size_t> ids = Order(self, &nodes, &z);
  std::deque<PsddNode *> todo;
  for (size_t i : ids) todo.push_back(nodes[i]);
  int done = 0;
  while (todo.size() > 1) {
    PsddNode *a = todo.front();
    todo.pop_front();
    PsddNode *b = todo.front();
    todo.pop_front();
    done += 1;
    Compiled p = self->m_pm->Multiply(a, b, 0);
    z = z * p.second;
    todo.push_back(p.first);
    if (done % gc_freq == 0) self->m_pm->DeleteUnusedPsddNodes(std::vector<PsddNode *>(todo.begin(), todo.end()));
  }
  return {todo.front(), z};
}

// factors grouped by the first of their variables in vtree order, groups from the last to the
// first, then neighbours pairwise
Compiled NetworkVtree(PgmCompiler *self, size_t gc_freq) {
  std::vector<Vtree *> order = SerializeVtree(self->m_pm->vtree());
  std::unordered_map<SddLiteral, Vtree *> leaf = Leaves(self);
  std::unordered_map<SddLiteral, std::vector<PsddNode *>> at;
  PsddParameter z = one();
  int done = 0;
  for (size_t i = 0; i < self->m_network->m_factor_size; ++i) {
    Compiled f = self->compile_factor(i);
    z = z * f.second;
    Vtree *first = nullptr;
    for (size_t var : self->m_network->m_clusters[i])
      if (first == nullptr || sdd_vtree_position(leaf[var]) < sdd_vtree_position(first)) first = leaf[var];
    at[sdd_vtree_position(first)].push_back(f.first);
  }
  std::reverse(order.begin(), order.end());
  std::deque<PsddNode *> todo;
  for (Vtree *v : order) {
    if (at.find(sdd_vtree_position(v)) == at.end()) continue;
    PsddNode *all = nullptr;
    for (PsddNode *n : at[sdd_vtree_position(v)]) {
      if (all == nullptr) {
        all = n;
        continue;
      }
      Compiled p = self->m_pm->Multiply(all, n, 0);
      done++;
      all = p.first;
      z = z * p.second;
    }
    assert(all != nullptr);
    todo.push_back(all);
  }
  while (todo.size() > 1) {
    PsddNode *a = todo.front();
    todo.pop_front();
    PsddNode *b = todo.front();
    todo.pop_front();
    done += 1;
    Compiled p = self->m_pm->Multiply(a, b, 0);
    z = z * p.second;
    todo.push_back(p.first);
    if (done % gc_freq == 0) self->m_pm->DeleteUnusedPsddNodes(std::vector<PsddNode *>(todo.begin(), todo.end()));
  }
  return {todo.front(), z};
}

// ---- setting up
void FromVtreeFile(PgmCompiler *self, const char *name) {
  Vtree *v = sdd_vtree_read(name);
  self->m_pm = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
}
void InitManager(PgmCompiler *self, char mode) {
  Vtree *v;
  if (mode == VTREE_METHOD_JOINTREE)
    v = JointreeVtree(self->m_network).ConstructVtree();
  else if (mode == VTREE_METHOD_MINFILL)
    v = MinFillVtree(self->m_network).ConstructVtree();
  else {
    assert(mode == VTREE_METHOD_HYPER_FIXED_BF);
    v = HypergraphDecompositionVtree(self->m_network, self->working_dir_.c_str()).ConstructVtree();
  }
  self->m_pm = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
}
void ReadUai(PgmCompiler *self, const char *name) {
  assert(self->m_network == nullptr);
  self->m_network = new UaiNetwork();
  self->m_network->read_file(name);
}
}  // namespace ref
