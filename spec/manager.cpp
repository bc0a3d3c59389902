// Reference models for the PSDD manager (see node.cpp for how these are used).
#include <cassert>
#include <fstream>
#include <iostream>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_unique_table.h>
#include <sstream>
using psdd_node_util::SerializePsddNodes;
using vtree_util::SerializeVtree;

namespace ref {
static Probability one() { return Probability::CreateFromDecimal(1); }
static Probability zero() { return Probability::CreateFromDecimal(0); }

// ---- registration: leaves by variable, decisions on the vtree node they belong to
PsddTopNode *GetPsddTopNode(PsddManager *self, uint32_t variable_index, uintmax_t flag_index, const PsddParameter &pos,
                            const PsddParameter &neg) {
  Vtree *leaf = self->leaf_vtree_map_[variable_index];
  return (PsddTopNode *)self->unique_table_->GetUniqueNode(
      new PsddTopNode(self->node_index_, leaf, flag_index, (uint32_t)sdd_vtree_var(leaf), pos, neg), &self->node_index_);
}
PsddLiteralNode *GetPsddLiteralNode(PsddManager *self, int32_t literal, uintmax_t flag_index) {
  Vtree *leaf = self->leaf_vtree_map_[abs(literal)];
  return (PsddLiteralNode *)self->unique_table_->GetUniqueNode(
      new PsddLiteralNode(self->node_index_, leaf, flag_index, literal), &self->node_index_);
}
PsddDecisionNode *GetConformedPsddDecisionNode(PsddManager *self, const std::vector<PsddNode *> &primes,
                                               const std::vector<PsddNode *> &subs, const std::vector<PsddParameter> &params,
                                               uintmax_t flag_index) {
  Vtree *lca = sdd_vtree_lca(primes[0]->vtree_node(), subs[0]->vtree_node(), self->vtree());
  std::vector<PsddNode *> p, s;
  for (size_t i = 0; i < primes.size(); ++i) {
    p.push_back(self->NormalizePsddNode(sdd_vtree_left(lca), primes[i], flag_index));
    s.push_back(self->NormalizePsddNode(sdd_vtree_right(lca), subs[i], flag_index));
  }
  return (PsddDecisionNode *)self->unique_table_->GetUniqueNode(
      new PsddDecisionNode(self->node_index_, lca, flag_index, p, s, params), &self->node_index_);
}

// ---- the node that is true everywhere over a vtree
PsddNode *GetTrueNodeMap(PsddManager *self, Vtree *target, uintmax_t flag_index,
                         std::unordered_map<SddLiteral, PsddNode *> *known) {
  auto hit = known->find(sdd_vtree_position(target));
  if (hit != known->end()) return hit->second;
  std::vector<Vtree *> order = SerializeVtree(target);
  for (auto it = order.rbegin(); it != order.rend(); it++) {
    Vtree *v = *it;
    PsddNode *n;
    if (sdd_vtree_is_leaf(v))
      n = self->GetPsddTopNode((uint32_t)sdd_vtree_var(v), flag_index, one(), one());
    else {
      assert(known->find(sdd_vtree_position(sdd_vtree_left(v))) != known->end());
      n = self->GetConformedPsddDecisionNode({known->find(sdd_vtree_position(sdd_vtree_left(v)))->second},
                                             {known->find(sdd_vtree_position(sdd_vtree_right(v)))->second}, {one()}, flag_index);
    }
    known->insert(std::make_pair(sdd_vtree_position(v), n));
  }
  return known->find(sdd_vtree_position(target))->second;
}
PsddNode *GetTrueNode(PsddManager *self, Vtree *target, uintmax_t flag_index) {
  std::unordered_map<SddLiteral, PsddNode *> known;
  return self->GetTrueNode(target, flag_index, &known);
}

// ---- lift a node to an ancestor vtree node, padding the other side with true
PsddNode *NormalizeMap(PsddManager *self, Vtree *target, PsddNode *node, uintmax_t flag_index,
                       std::unordered_map<SddLiteral, PsddNode *> *known) {
  PsddNode *cur = node;
  while (cur->vtree_node() != target) {
    Vtree *parent = sdd_vtree_parent(cur->vtree_node());
    PsddNode *next;
    if (sdd_vtree_left(parent) == cur->vtree_node())
      next = new PsddDecisionNode(self->node_index_, parent, flag_index, {cur},
                                  {self->GetTrueNode(sdd_vtree_right(parent), flag_index, known)}, {one()});
    else
      next = new PsddDecisionNode(self->node_index_, parent, flag_index,
                                  {self->GetTrueNode(sdd_vtree_left(parent), flag_index, known)}, {cur}, {one()});
    cur = self->unique_table_->GetUniqueNode(next, &self->node_index_);
  }
  return cur;
}
PsddNode *Normalize(PsddManager *self, Vtree *target, PsddNode *node, uintmax_t flag_index) {
  std::unordered_map<SddLiteral, PsddNode *> known;
  return self->NormalizePsddNode(target, node, flag_index, &known);
}

// ---- SDD to PSDD
static PsddNode *Convert(PsddManager *self, SddNode *root, Vtree *sdd_vtree, uintmax_t flag_index, Vtree *target) {
  if (sdd_node_is_false(root)) return nullptr;
  if (sdd_node_is_true(root)) return self->GetTrueNode(target, flag_index);
  std::vector<Vtree *> pv = SerializeVtree(target);
  std::vector<Vtree *> sv = SerializeVtree(sdd_vtree);
  for (size_t i = 0; i < sv.size(); ++i) sdd_vtree_set_data((void *)pv[i], sv[i]);
  SddSize n = 0;
  SddNode **nodes = sdd_topological_sort(root, &n);
  std::unordered_map<SddSize, PsddNode *> done;
  for (size_t i = 0; i < n; ++i) {
    SddNode *cur = nodes[i];
    if (sdd_node_is_decision(cur)) {
      auto v = (Vtree *)sdd_vtree_data(sdd_vtree_of(cur));
      std::vector<PsddNode *> primes, subs;
      SddNode **el = sdd_node_elements(cur);
      std::vector<PsddParameter> parameters(sdd_node_size(cur), one());
      for (size_t j = 0; j < sdd_node_size(cur); j++) {
        SddNode *sub = el[2 * j + 1];
        if (sdd_node_is_false(sub)) continue;
        PsddNode *prime = done.find(sdd_id(el[2 * j]))->second;
        primes.push_back(self->NormalizePsddNode(sdd_vtree_left(v), prime, flag_index));
        subs.push_back(sdd_node_is_true(sub) ? self->GetTrueNode(sdd_vtree_right(v), flag_index)
                                             : self->NormalizePsddNode(sdd_vtree_right(v), done.find(sdd_id(sub))->second, flag_index));
      }
      done[sdd_id(cur)] = self->unique_table_->GetUniqueNode(
          new PsddDecisionNode(self->node_index_, v, flag_index, primes, subs, parameters), &self->node_index_);
    } else if (sdd_node_is_literal(cur)) {
      auto v = (Vtree *)sdd_vtree_data(sdd_vtree_of(cur));
      auto var = static_cast<int32_t>(sdd_vtree_var(v));
      done[sdd_id(cur)] = self->unique_table_->GetUniqueNode(
          new PsddLiteralNode(self->node_index_, v, flag_index, sdd_node_literal(cur) > 0 ? var : -var), &self->node_index_);
    }
  }
  PsddNode *r = self->NormalizePsddNode(target, done[sdd_id(root)], flag_index);
  for (auto v : sv) sdd_vtree_set_data(nullptr, v);
  free(nodes);
  return r;
}
PsddNode *ConvertSddToPsdd(PsddManager *self, SddNode *root, Vtree *sdd_vtree, uintmax_t flag_index) {
  return Convert(self, root, sdd_vtree, flag_index, self->vtree());
}
PsddNode *FromSddVtree(PsddManager *self, SddNode *root, Vtree *sdd_vtree, uintmax_t flag_index, Vtree *target) {
  return Convert(self, root, sdd_vtree, flag_index, target);
}
PsddNode *FromSddVars(PsddManager *self, SddNode *root, Vtree *sdd_vtree, uintmax_t flag_index,
                      const std::unordered_set<SddLiteral> &vars) {
  return self->FromSdd(root, sdd_vtree, flag_index, vtree_util::SubVtreeByVariables(self->vtree(), vars));
}

// ---- copy of a PSDD into this manager
PsddNode *LoadPsddNode(PsddManager *self, Vtree *target, PsddNode *root, uintmax_t flag_index) {
  std::vector<PsddNode *> nodes = SerializePsddNodes(root);
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    PsddNode *r;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      r = self->GetPsddLiteralNode(n->psdd_literal_node()->literal(), flag_index);
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      r = self->GetPsddTopNode(t->variable_index(), flag_index, t->true_parameter(), t->false_parameter());
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      std::vector<PsddNode *> p, s;
      for (size_t i = 0; i < d->primes().size(); ++i) {
        p.push_back((PsddNode *)d->primes()[i]->user_data());
        s.push_back((PsddNode *)d->subs()[i]->user_data());
      }
      r = self->GetConformedPsddDecisionNode(p, s, d->parameters(), flag_index);
    }
    n->SetUserData((uintmax_t)r);
  }
  PsddNode *res = self->NormalizePsddNode(target, (PsddNode *)root->user_data(), flag_index);
  for (PsddNode *n : nodes) n->SetUserData(0);
  return res;
}

// ---- product distribution and its normalising constant
static std::pair<PsddNode *, PsddParameter> Product(PsddNode *a, PsddNode *b, PsddManager *m, uintmax_t flag_index) {
  // operands with different vtree nodes, or a decision node against a leaf, are outside the contract
  if (a->node_type() == DECISION_NODE_TYPE && b->node_type() == DECISION_NODE_TYPE) {
    PsddDecisionNode *x = a->psdd_decision_node();
    PsddDecisionNode *y = b->psdd_decision_node();
    std::vector<PsddNode *> primes, subs;
    std::vector<PsddParameter> weights;
    PsddParameter z = zero();
    for (size_t i = 0; i < x->primes().size(); ++i)
      for (size_t j = 0; j < y->primes().size(); ++j) {
        auto p = Product(x->primes()[i], y->primes()[j], m, flag_index);
        if (p.first == nullptr) continue;
        auto s = Product(x->subs()[i], y->subs()[j], m, flag_index);
        if (s.first == nullptr) continue;
        PsddParameter w = x->parameters()[i] * y->parameters()[j] * p.second * s.second;
        primes.push_back(p.first);
        subs.push_back(s.first);
        weights.push_back(w);
        z = z + w;
      }
    if (primes.empty()) return {nullptr, zero()};
    for (auto &w : weights) {
      w = w / z;
      assert(w != zero());
    }
    return {m->GetConformedPsddDecisionNode(primes, subs, weights, flag_index), z};
  }
  if (a->node_type() == LITERAL_NODE_TYPE) {
    PsddLiteralNode *l = a->psdd_literal_node();
    if (b->node_type() == LITERAL_NODE_TYPE) {
      if (l->literal() != b->psdd_literal_node()->literal()) return {nullptr, zero()};
      return {m->GetPsddLiteralNode(l->literal(), flag_index), one()};
    }
    if (b->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = b->psdd_top_node();
      return {m->GetPsddLiteralNode(l->literal(), flag_index), l->sign() ? t->true_parameter() : t->false_parameter()};
    }
  }
  if (a->node_type() == TOP_NODE_TYPE) {
    PsddTopNode *t = a->psdd_top_node();
    if (b->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = b->psdd_literal_node();
      return {m->GetPsddLiteralNode(l->literal(), flag_index), l->sign() ? t->true_parameter() : t->false_parameter()};
    }
    if (b->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *u = b->psdd_top_node();
      PsddParameter pos = t->true_parameter() * u->true_parameter();
      PsddParameter neg = t->false_parameter() * u->false_parameter();
      PsddParameter z = pos + neg;
      return {m->GetPsddTopNode(t->variable_index(), flag_index, pos / z, neg / z), z};
    }
  }
}
std::pair<PsddNode *, PsddParameter> Multiply(PsddManager *self, PsddNode *a, PsddNode *b, uintmax_t flag_index) {
  // null stands for an unsatisfiable PSDD
  if (a == nullptr || b == nullptr) return {nullptr, zero()};
  return Product(a, b, self, flag_index);
}

// ---- reading the file format back (a log parameter may be -inf)
static double number(const std::string &token) { return strtod(token.c_str(), nullptr); }
PsddNode *ReadPsddFile(PsddManager *self, const char *psdd_filename, uintmax_t flag_index) {
  std::ifstream in;
  std::unordered_map<uintmax_t, PsddNode *> made;
  in.open(psdd_filename);
  if (!in) exit(1);
  std::string line;
  PsddNode *root = nullptr;
  while (std::getline(in, line)) {
    if (line[0] == 'c' || line[0] == 'p') continue;
    std::istringstream iss(line.substr(1, std::string::npos));
    PsddNode *n;
    uintmax_t id;
    if (line[0] == 'L') {
      uint32_t vtree_index;
      int32_t literal;
      iss >> id >> vtree_index >> literal;
      n = self->GetPsddLiteralNode(literal, flag_index);
    } else if (line[0] == 'T') {
      uint32_t vtree_index;
      uint32_t var;
      std::string neg, pos;
      iss >> id >> vtree_index >> var >> neg >> pos;
      n = self->GetPsddTopNode(var, flag_index, PsddParameter::CreateFromLog(number(pos)), PsddParameter::CreateFromLog(number(neg)));
    } else {
      int vtree_index;
      uintmax_t count;
      iss >> id >> vtree_index >> count;
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      for (size_t j = 0; j < count; j++) {
        uintmax_t pi, si;
        std::string lw;
        iss >> pi >> si >> lw;
        p.push_back(made[pi]);
        s.push_back(made[si]);
        w.push_back(PsddParameter::CreateFromLog(number(lw)));
      }
      n = self->unique_table_->GetUniqueNode(
          new PsddDecisionNode(self->node_index_, sdd_vtree_parent(p[0]->vtree_node()), flag_index, p, s, w), &self->node_index_);
    }
    made[id] = n;
    root = n;
  }
  in.close();
  return root;
}

// ---- random parameters
std::vector<PsddNode *> SampleMultiple(PsddManager *self, RandomDoubleGenerator *generator, const std::vector<PsddNode *> &roots,
                                       uintmax_t flag_index) {
  std::vector<PsddNode *> nodes = SerializePsddNodes(roots);
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    PsddNode *r;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      r = self->GetPsddLiteralNode(n->psdd_literal_node()->literal(), flag_index);
    } else if (n->node_type() == TOP_NODE_TYPE) {
      double pos = generator->generate();
      double neg = generator->generate();
      auto t = PsddParameter::CreateFromDecimal(pos / (pos + neg));
      auto f = PsddParameter::CreateFromDecimal(neg / (pos + neg));
      r = self->GetPsddTopNode(n->psdd_top_node()->variable_index(), flag_index, t, f);
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      PsddParameter z = zero();
      for (size_t i = 0; i < d->primes().size(); ++i) {
        w.push_back(PsddParameter::CreateFromDecimal(generator->generate()));
        z = z + w[i];
        p.push_back((PsddNode *)d->primes()[i]->user_data());
        s.push_back((PsddNode *)d->subs()[i]->user_data());
      }
      for (size_t i = 0; i < d->primes().size(); ++i) w[i] = w[i] / z;
      r = self->GetConformedPsddDecisionNode(p, s, w, flag_index);
    }
    n->SetUserData((uintmax_t)r);
  }
  std::vector<PsddNode *> out;
  for (size_t i = 0; i < roots.size(); ++i) out.push_back((PsddNode *)roots[i]->user_data());
  for (PsddNode *n : nodes) n->SetUserData(0);
  return out;
}
PsddNode *SampleParameters(PsddManager *self, RandomDoubleGenerator *generator, PsddNode *root, uintmax_t flag_index) {
  return self->SampleParametersForMultiplePsdds(generator, {root}, flag_index)[0];
}

// ---- managers
PsddManager *FromSddVtreeManager(Vtree *sdd_vtree, const std::unordered_map<uint32_t, uint32_t> &variable_mapping) {
  std::vector<Vtree *> all = SerializeVtree(sdd_vtree);
  for (auto it = all.rbegin(); it != all.rend(); ++it) {
    Vtree *v = *it;
    Vtree *nv;
    if (sdd_vtree_is_leaf(v))
      nv = new_leaf_vtree((SddLiteral)variable_mapping.find((uint32_t)sdd_vtree_var(v))->second);
    else
      nv = new_internal_vtree((Vtree *)sdd_vtree_data(sdd_vtree_left(v)), (Vtree *)sdd_vtree_data(sdd_vtree_right(v)));
    sdd_vtree_set_data((void *)nv, v);
  }
  auto r = (Vtree *)sdd_vtree_data(sdd_vtree);
  set_vtree_properties(r);
  for (Vtree *v : all) sdd_vtree_set_data(nullptr, v);
  return new PsddManager(r, PsddUniqueTable::GetPsddUniqueTable());
}
PsddManager *FromVtreeManager(Vtree *psdd_vtree) {
  return new PsddManager(vtree_util::CopyVtree(psdd_vtree), PsddUniqueTable::GetPsddUniqueTable());
}

// ---- maximum likelihood parameters with Laplace smoothing
PsddNode *LearnPsddParameters(PsddManager *self, PsddNode *root, const std::unordered_map<int32_t, BatchedPsddValue> &examples,
                              size_t data_size, PsddParameter alpha, uintmax_t flag_index) {
  std::vector<PsddNode *> nodes = SerializePsddNodes(root);
  if (data_size != 0) {
    // bottom up: does example k satisfy the node?
    for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
      PsddNode *n = *it;
      n->SetBatchedPsddContextValue(BatchedPsddValue(data_size, false));
      if (n->node_type() == LITERAL_NODE_TYPE) {
        PsddLiteralNode *l = n->psdd_literal_node();
        BatchedPsddValue v = examples.find(l->variable_index())->second;
        if (!l->sign())
          for (size_t k = 0; k < v.size(); ++k) v[k] = !v[k];
        n->SetBatchedPsddValue(std::move(v));
      } else if (n->node_type() == TOP_NODE_TYPE) {
        n->SetBatchedPsddValue(BatchedPsddValue(data_size, true));
      } else {
        PsddDecisionNode *d = n->psdd_decision_node();
        BatchedPsddValue v(data_size, false);
        for (size_t i = 0; i < d->primes().size(); ++i)
          for (size_t k = 0; k < data_size; ++k)
            if (d->primes()[i]->batched_psdd_value()[k] && d->subs()[i]->batched_psdd_value()[k]) v[k] = true;
        n->SetBatchedPsddValue(std::move(v));
      }
    }
    // top down: which examples reach the node? count them by branch
    root->MutableBatchedPsddContextValue()->flip();
    for (PsddNode *n : nodes) {
      const auto &reach = n->batched_psdd_context_value();
      if (n->node_type() == TOP_NODE_TYPE) {
        PsddTopNode *t = n->psdd_top_node();
        const auto &col = examples.find(t->variable_index())->second;
        uintmax_t pos = 0, neg = 0;
        for (size_t k = 0; k < data_size; ++k)
          if (reach[k]) {
            if (col[k]) ++pos;
            else ++neg;
          }
        t->IncrementTrueDataCount(pos);
        t->IncrementFalseDataCount(neg);
      } else if (n->node_type() == DECISION_NODE_TYPE) {
        PsddDecisionNode *d = n->psdd_decision_node();
        for (size_t i = 0; i < d->primes().size(); ++i)
          for (size_t k = 0; k < data_size; ++k)
            if (reach[k] && d->primes()[i]->batched_psdd_value()[k] && d->subs()[i]->batched_psdd_value()[k]) {
              d->IncrementDataCount(i, 1);
              d->primes()[i]->MutableBatchedPsddContextValue()->at(k) = true;
              d->subs()[i]->MutableBatchedPsddContextValue()->at(k) = true;
            }
      }
      n->MutableBatchedPsddContextValue()->clear();
      n->MutableBatchedPsddValue()->clear();
    }
  }
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      n->SetUserData((uintmax_t)self->GetPsddLiteralNode(n->psdd_literal_node()->literal(), flag_index));
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      auto pos = PsddParameter::CreateFromDecimal(static_cast<double>(t->true_data_count())) + alpha;
      auto neg = PsddParameter::CreateFromDecimal(static_cast<double>(t->false_data_count())) + alpha;
      n->SetUserData((uintmax_t)self->GetPsddTopNode(t->variable_index(), flag_index, pos / (pos + neg), neg / (pos + neg)));
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      PsddParameter z = zero();
      for (size_t i = 0; i < d->primes().size(); ++i) {
        PsddParameter c = PsddParameter::CreateFromDecimal(static_cast<double>(d->data_counts()[i])) + alpha;
        w.push_back(c);
        z = z + c;
        p.push_back((PsddNode *)d->primes()[i]->user_data());
        s.push_back((PsddNode *)d->subs()[i]->user_data());
      }
      for (auto &x : w) x = x / z;
      n->SetUserData((uintmax_t)self->GetConformedPsddDecisionNode(p, s, w, flag_index));
    }
  }
  PsddNode *result = (PsddNode *)root->user_data();
  for (PsddNode *n : nodes) {
    n->ResetDataCount();
    n->SetUserData(0);
  }
  return result;
}
} // namespace ref
