// Reference models for the PSDD queries.  Never compiled into anything and never
// run: the checks translate them with the same front end as /repo and compare the
// resulting value graphs.  Each is the plain definition of what the query means.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <fstream>
#include <functional>
#include <gmp.h>
#include <iostream>
#include <psdd/psdd_node.h>
#include <psdd/psdd_manager.h>
#include <queue>
#include <stack>
#include <unordered_set>
using vtree_util::SerializeVtree;
using psdd_node_util::SerializePsddNodes;

namespace ref {

static Probability one() { return Probability::CreateFromDecimal(1); }
static Probability zero() { return Probability::CreateFromDecimal(0); }

// ---- probability of a partial assignment: sum over elements of prime*sub*parameter
Probability Evaluate(const std::bitset<MAX_VAR> &variables, const std::bitset<MAX_VAR> &instantiation,
                     const std::vector<PsddNode *> &serialized_nodes) {
  std::unordered_map<uintmax_t, Probability> value;
  for (auto it = serialized_nodes.rbegin(); it != serialized_nodes.rend(); ++it) {
    PsddNode *n = *it;
    Probability v;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      bool agrees = !variables[l->variable_index()] || instantiation[l->variable_index()] == l->sign();
      v = agrees ? one() : zero();
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      if (!variables[t->variable_index()])
        v = one();
      else
        v = instantiation[t->variable_index()] ? t->true_parameter() : t->false_parameter();
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      v = zero();
      for (size_t i = 0; i < d->primes().size(); ++i)
        v = v + value[d->primes()[i]->node_index()] * value[d->subs()[i]->node_index()] * d->parameters()[i];
    }
    value[n->node_index()] = v;
  }
  return value[serialized_nodes[0]->node_index()];
}
Probability Evaluate1(const std::bitset<MAX_VAR> &variables, const std::bitset<MAX_VAR> &instantiation, PsddNode *root) {
  return Evaluate(variables, instantiation, SerializePsddNodes(root));
}

// ---- number of assignments in the support
mpz_class ModelCount(const std::vector<PsddNode *> &serialized_nodes) {
  std::unordered_map<uintmax_t, mpz_class> count;
  for (auto it = serialized_nodes.rbegin(); it != serialized_nodes.rend(); ++it) {
    PsddNode *n = *it;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      count[n->node_index()] = 1;
    } else if (n->node_type() == TOP_NODE_TYPE) {
      count[n->node_index()] = 2;
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      mpz_class total = 0;
      for (size_t i = 0; i < d->primes().size(); ++i)
        total = total + count[d->primes()[i]->node_index()] * count[d->subs()[i]->node_index()];
      count[n->node_index()] = total;
    }
  }
  return count[serialized_nodes[0]->node_index()];
}

// ---- can the partial assignment be completed to a member of the support
bool IsConsistentList(const std::vector<PsddNode *> &nodes, const std::bitset<MAX_VAR> &mask,
                      const std::bitset<MAX_VAR> &partial) {
  std::unordered_map<uintmax_t, bool> ok;
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    bool r = true;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      r = !mask[l->variable_index()] || partial[l->variable_index()] == l->sign();
    } else if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *d = n->psdd_decision_node();
      r = false;
      for (size_t i = 0; i < d->primes().size(); ++i)
        if (ok[d->primes()[i]->node_index()] && ok[d->subs()[i]->node_index()]) r = true;
    }
    ok[n->node_index()] = r;
  }
  return ok[nodes[0]->node_index()];
}
bool IsConsistent1(PsddNode *node, const std::bitset<MAX_VAR> &mask, const std::bitset<MAX_VAR> &partial) {
  return IsConsistentList(SerializePsddNodes(node), mask, partial);
}
bool LiteralConsistent(const PsddLiteralNode *self, const std::unordered_map<uint32_t, bool> &partial) {
  auto it = partial.find(self->variable_index());
  return it == partial.end() || it->second == self->sign();
}
bool DecisionConsistent(const PsddDecisionNode *self, const std::unordered_map<uint32_t, bool> &partial) {
  for (size_t i = 0; i < self->primes().size(); ++i)
    if (self->primes()[i]->IsConsistent(partial) && self->subs()[i]->IsConsistent(partial)) return true;
  return false;
}
bool TopConsistent(const PsddTopNode *, const std::unordered_map<uint32_t, bool> &) { return true; }
bool TotalConsistent(PsddNode *self, const std::bitset<MAX_VAR> &instantiation, uint32_t variable_size) {
  std::unordered_map<uint32_t, bool> evid;
  for (size_t i = 1; i <= variable_size; ++i) evid[i] = instantiation[i];
  return self->IsConsistent(evid);
}
void SetActivationFlag(const std::bitset<MAX_VAR> &evidence, const std::vector<PsddNode *> &nodes) {
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    bool r = true;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      r = evidence[l->variable_index()] == l->sign();
    } else if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *d = n->psdd_decision_node();
      r = false;
      for (size_t i = 0; i < d->primes().size(); ++i)
        if (d->primes()[i]->activation_flag() && d->subs()[i]->activation_flag()) r = true;
    }
    if (r) n->SetActivationFlag();
  }
}

// ---- marginals: (negative, positive), normalised per variable
std::unordered_map<uint32_t, std::pair<Probability, Probability>> GetMarginals(const std::vector<PsddNode *> &nodes) {
  std::unordered_map<uint32_t, std::pair<Probability, Probability>> marginals;
  std::vector<Probability> der(nodes.size(), zero());
  uintmax_t index = 0;
  for (PsddNode *n : nodes) {
    n->SetUserData(index);
    index++;
  }
  der[0] = one();
  for (PsddNode *n : nodes) {
    Probability d = der[n->user_data()];
    if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *dn = n->psdd_decision_node();
      for (size_t i = 0; i < dn->primes().size(); ++i) {
        der[dn->primes()[i]->user_data()] = der[dn->primes()[i]->user_data()] + der[dn->user_data()] * dn->parameters()[i];
        der[dn->subs()[i]->user_data()] = der[dn->subs()[i]->user_data()] + der[dn->user_data()] * dn->parameters()[i];
      }
    } else if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      if (marginals.find(l->variable_index()) == marginals.end())
        marginals[l->variable_index()] = std::make_pair(zero(), zero());
      if (l->sign())
        marginals[l->variable_index()].second = marginals[l->variable_index()].second + d;
      else
        marginals[l->variable_index()].first = marginals[l->variable_index()].first + d;
    } else {
      PsddTopNode *t = n->psdd_top_node();
      if (marginals.find(t->variable_index()) == marginals.end())
        marginals[t->variable_index()] = std::make_pair(zero(), zero());
      marginals[t->variable_index()].first = marginals[t->variable_index()].first + d * t->false_parameter();
      marginals[t->variable_index()].second = marginals[t->variable_index()].second + d * t->true_parameter();
    }
  }
  for (PsddNode *n : nodes) n->SetUserData(0);
  for (auto &m : marginals) {
    Probability z = m.second.first + m.second.second;
    m.second.first = m.second.first / z;
    m.second.second = m.second.second / z;
  }
  return marginals;
}

// ---- size: one per extra element of a decision, one per top node
uintmax_t GetPsddSize(PsddNode *root) {
  uintmax_t s = 0;
  for (PsddNode *n : SerializePsddNodes(root)) {
    if (n->node_type() == DECISION_NODE_TYPE) s += n->psdd_decision_node()->primes().size() - 1;
    if (n->node_type() == TOP_NODE_TYPE) s += 1;
  }
  return s;
}

// ---- support as an SDD over mapped variables
SddNode *ConvertPsddNodeToSddNode(const std::vector<PsddNode *> &nodes,
                                  const std::unordered_map<SddLiteral, SddLiteral> &variable_map, SddManager *m) {
  std::unordered_map<uintmax_t, SddNode *> sdd;
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    SddNode *r;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      SddLiteral v = variable_map.find((SddLiteral)l->variable_index())->second;
      r = sdd_manager_literal(l->sign() ? v : -v, m);
    } else if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *d = n->psdd_decision_node();
      r = sdd_manager_false(m);
      for (size_t i = 0; i < d->primes().size(); ++i)
        r = sdd_disjoin(r, sdd_conjoin(sdd[d->primes()[i]->node_index()], sdd[d->subs()[i]->node_index()], m), m);
    } else {
      r = sdd_manager_true(m);
    }
    sdd[n->node_index()] = r;
  }
  return sdd[nodes[0]->node_index()];
}


// ---- most probable completion
std::pair<std::bitset<MAX_VAR>, Probability> GetMPESolution(const std::vector<PsddNode *> &nodes) {
  typedef std::pair<Probability, uintmax_t> Best;
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      n->SetUserData((uintmax_t)(new Best(one(), 0)));
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      Best *r;
      if (t->true_parameter() > t->false_parameter())
        r = new Best(t->true_parameter(), 1);
      else
        r = new Best(t->false_parameter(), 0);
      n->SetUserData((uintmax_t)r);
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      Probability m = zero();
      uintmax_t k = 0;
      for (uintmax_t i = 0; i < d->primes().size(); ++i) {
        Probability p =
            ((Best *)d->primes()[i]->user_data())->first * ((Best *)d->subs()[i]->user_data())->first * d->parameters()[i];
        if (p > m) {
          m = p;
          k = i;
        }
      }
      n->SetUserData((uintmax_t)(new Best(m, k)));
    }
  }
  std::bitset<MAX_VAR> assignment;
  Probability value = ((Best *)nodes[0]->user_data())->first;
  std::queue<PsddNode *> todo;
  todo.push(nodes[0]);
  while (!todo.empty()) {
    PsddNode *n = todo.front();
    todo.pop();
    if (n->node_type() == LITERAL_NODE_TYPE) {
      if (n->psdd_literal_node()->sign()) assignment.set(n->psdd_literal_node()->variable_index());
    } else if (n->node_type() == DECISION_NODE_TYPE) {
      uintmax_t k = ((Best *)n->user_data())->second;
      todo.push(n->psdd_decision_node()->primes()[k]);
      todo.push(n->psdd_decision_node()->subs()[k]);
    } else if (((Best *)n->user_data())->second) {
      assignment.set(n->psdd_top_node()->variable_index());
    }
  }
  for (PsddNode *n : nodes) {
    delete (Best *)n->user_data();
    n->SetUserData(0);
  }
  return {assignment, value};
}
std::pair<std::bitset<MAX_VAR>, Probability> GetMPESolution1(PsddNode *n) {
  return psdd_node_util::GetMPESolution(SerializePsddNodes(n));
}

// ---- sampling
void LiteralSample(PsddLiteralNode *self, std::bitset<MAX_VAR> *inst, RandomDoubleFromUniformGenerator *) {
  if (self->literal() > 0) inst->set((size_t)self->literal());
}
void TopSample(PsddTopNode *self, std::bitset<MAX_VAR> *inst, RandomDoubleFromUniformGenerator *g) {
  Probability u = Probability::CreateFromDecimal((g->generate() - g->min()) / (g->max() - g->min()));
  if (u < self->true_parameter()) inst->set(self->variable_index());
}
void DecisionSample(PsddDecisionNode *self, std::bitset<MAX_VAR> *inst, RandomDoubleFromUniformGenerator *g) {
  Probability u = Probability::CreateFromDecimal((g->generate() - g->min()) / (g->max() - g->min()));
  Probability acc = zero();
  for (size_t i = 0; i < self->primes().size(); ++i) {
    acc = acc + self->parameters()[i];
    if (u < acc) {
      self->primes()[i]->DirectSample(inst, g);
      self->subs()[i]->DirectSample(inst, g);
      return;
    }
  }
  assert(false);
}

// ---- file format
void WritePsddToFile(PsddNode *root, const char *output_filename) {
  auto nodes = SerializePsddNodes(root);
  std::string text =
      "c ids of psdd nodes start at 0\nc psdd nodes appear bottom-up, children "
      "before parents\nc file syntax:\nc psdd count-of-psdd-nodes\nc L "
      "id-of-literal-sdd-node id-of-vtree literal\nc T id-of-trueNode-sdd-node "
      "id-of-vtree variable log(neg_prob) log(pos_prob)\nc D "
      "id-of-decomposition-sdd-node id-of-vtree number-of-elements "
      "{id-of-prime id-of-sub log(elementProb)}*\nc\n";
  text += "psdd " + std::to_string(nodes.size()) + "\n";
  uintmax_t id = 0;
  for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
    PsddNode *n = *it;
    std::string head = std::to_string(id) + " " + std::to_string(sdd_vtree_position(n->vtree_node())) + " ";
    if (n->node_type() == LITERAL_NODE_TYPE) {
      text += "L " + head + std::to_string(n->psdd_literal_node()->literal()) + "\n";
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      text += "T " + head + std::to_string(t->variable_index()) + " " + std::to_string(t->false_parameter().parameter()) + " " +
              std::to_string(t->true_parameter().parameter()) + "\n";
    } else {
      PsddDecisionNode *d = n->psdd_decision_node();
      text += "D " + head + std::to_string(d->primes().size());
      for (size_t i = 0; i < d->primes().size(); ++i)
        text += " " + std::to_string(d->primes()[i]->user_data()) + " " + std::to_string(d->subs()[i]->user_data()) + " " +
                std::to_string(d->parameters()[i].parameter());
      text += "\n";
    }
    n->SetUserData(id);
    id += 1;
  }
  std::ofstream out;
  out.open(output_filename);
  out << text;
  out.close();
  for (PsddNode *n : nodes) n->SetUserData(0);
}

// ---- node accessors and construction
bool LiteralSign(const PsddLiteralNode *self) { return self->literal() > 0; }
uint32_t LiteralVariable(const PsddLiteralNode *self) {
  return self->literal() > 0 ? static_cast<uint32_t>(self->literal()) : static_cast<uint32_t>(-self->literal());
}
bool LiteralEq(const PsddLiteralNode *self, const PsddLiteralNode &o) {
  return self->literal() == o.literal() && self->flag_index() == o.flag_index();
}
bool DecisionEq(const PsddDecisionNode *self, const PsddDecisionNode &o) {
  if (self->primes().size() != o.primes().size() || self->flag_index() != o.flag_index()) return false;
  for (size_t i = 0; i < self->primes().size(); ++i)
    if (self->primes()[i]->node_index() != o.primes()[i]->node_index() ||
        self->subs()[i]->node_index() != o.subs()[i]->node_index() || self->parameters()[i] != o.parameters()[i])
      return false;
  return true;
}
bool TopEq(const PsddTopNode *self, const PsddTopNode &o) {
  return self->variable_index() == o.variable_index() && self->flag_index() == o.flag_index() &&
         self->true_parameter() == o.true_parameter() && self->false_parameter() == o.false_parameter();
}
void IncData(PsddDecisionNode *self, uintmax_t index, uintmax_t k) { self->data_counts_[index] += k; }
void ResetDecision(PsddDecisionNode *self) {
  for (size_t i = 0; i < self->primes().size(); ++i) self->data_counts_[i] = 0;
}
void IncTrue(PsddTopNode *self, uintmax_t k) { self->true_data_count_ += k; }
void IncFalse(PsddTopNode *self, uintmax_t k) { self->false_data_count_ += k; }
void ResetTop(PsddTopNode *self) {
  self->true_data_count_ = 0;
  self->false_data_count_ = 0;
}

// ---- construction: elements in the order of their primes' indices, each sub and parameter staying with its prime
static void Base(PsddNode *self, uintmax_t index, Vtree *v, uintmax_t flag) {
  self->node_index_ = index;
  self->vtree_node_ = v;
  self->flag_index_ = flag;
  self->user_data_ = 0;
  self->activation_flag_ = false;
  self->batched_psdd_value_.clear();
  self->batched_psdd_context_value_.clear();
}
void NewLiteral(PsddLiteralNode *self, uintmax_t index, Vtree *v, uintmax_t flag, int32_t literal) {
  Base(self, index, v, flag);
  self->literal_ = literal;
}
void NewTop(PsddTopNode *self, uintmax_t index, Vtree *v, uintmax_t flag, uint32_t variable, PsddParameter t, PsddParameter f) {
  Base(self, index, v, flag);
  self->variable_index_ = variable;
  self->true_parameter_ = t;
  self->false_parameter_ = f;
  self->true_data_count_ = 0;
  self->false_data_count_ = 0;
}
void NewDecision(PsddDecisionNode *self, uintmax_t index, Vtree *v, uintmax_t flag, const std::vector<PsddNode *> &primes,
                 const std::vector<PsddNode *> &subs, const std::vector<PsddParameter> &parameters) {
  Base(self, index, v, flag);
  size_t n = primes.size();
  std::vector<size_t> at;
  for (size_t i = 0; i < n; ++i) at.push_back(i);
  std::sort(at.begin(), at.end(), [&](size_t a, size_t b) { return primes[a]->node_index() < primes[b]->node_index(); });
  self->primes_ = std::vector<PsddNode *>(n);
  self->subs_ = std::vector<PsddNode *>(n);
  self->parameters_ = std::vector<PsddParameter>(n);
  self->data_counts_ = std::vector<uintmax_t>(n, 0);
  for (size_t i = 0; i < n; ++i) {
    self->primes_[i] = primes[at[i]];
    self->subs_[i] = subs[at[i]];
    if (parameters.size() > 0) self->parameters_[i] = parameters[at[i]];
  }
}
void NewLiteralAt(PsddLiteralNode *self, uintmax_t *index, Vtree *v, uintmax_t flag, int32_t literal) {
  NewLiteral(self, *index, v, flag, literal);
  *index += 1;
}
void NewLiteral0(PsddLiteralNode *self, uintmax_t *index, Vtree *v, int32_t literal) { NewLiteralAt(self, index, v, 0, literal); }
void NewTopAt(PsddTopNode *self, uintmax_t *index, Vtree *v, uintmax_t flag, uint32_t variable) {
  NewTop(self, *index, v, flag, variable, PsddParameter(), PsddParameter());
  *index += 1;
}
void NewTop0(PsddTopNode *self, uintmax_t *index, Vtree *v, uint32_t variable) { NewTopAt(self, index, v, 0, variable); }
void NewDecisionAt(PsddDecisionNode *self, uintmax_t *index, Vtree *v, uintmax_t flag, const std::vector<PsddNode *> &primes,
                   const std::vector<PsddNode *> &subs, const std::vector<PsddParameter> &parameters) {
  NewDecision(self, *index, v, flag, primes, subs, parameters);
  *index += 1;
}
void NewDecisionN(PsddDecisionNode *self, uintmax_t *index, Vtree *v, uintmax_t flag, const std::vector<PsddNode *> &primes,
                  const std::vector<PsddNode *> &subs) {
  NewDecisionAt(self, index, v, flag, primes, subs, std::vector<PsddParameter>());
}
void NewDecision0(PsddDecisionNode *self, uintmax_t *index, Vtree *v, const std::vector<PsddNode *> &primes, const std::vector<PsddNode *> &subs) {
  NewDecisionN(self, index, v, 0, primes, subs);
}

// ---- vtrees
Vtree *CopyVtree(Vtree *root) {
  std::vector<Vtree *> all = SerializeVtree(root);
  for (auto it = all.rbegin(); it != all.rend(); ++it) {
    Vtree *v = *it;
    Vtree *nv;
    if (sdd_vtree_is_leaf(v)) {
      nv = new_leaf_vtree(sdd_vtree_var(v));
    } else {
      nv = new_internal_vtree((Vtree *)sdd_vtree_data(sdd_vtree_left(v)), (Vtree *)sdd_vtree_data(sdd_vtree_right(v)));
      sdd_vtree_set_data(nullptr, sdd_vtree_left(v));
      sdd_vtree_set_data(nullptr, sdd_vtree_right(v));
    }
    sdd_vtree_set_data((void *)nv, v);
  }
  auto r = (Vtree *)sdd_vtree_data(root);
  sdd_vtree_set_data(nullptr, root);
  set_vtree_properties(r);
  return r;
}
Vtree *CopyVtreeMap(Vtree *root, const std::unordered_map<SddLiteral, SddLiteral> &variable_map) {
  std::vector<Vtree *> all = SerializeVtree(root);
  for (auto it = all.rbegin(); it != all.rend(); ++it) {
    Vtree *v = *it;
    Vtree *nv;
    if (sdd_vtree_is_leaf(v)) {
      nv = new_leaf_vtree(variable_map.find(sdd_vtree_var(v))->second);
    } else {
      nv = new_internal_vtree((Vtree *)sdd_vtree_data(sdd_vtree_left(v)), (Vtree *)sdd_vtree_data(sdd_vtree_right(v)));
      sdd_vtree_set_data(nullptr, sdd_vtree_left(v));
      sdd_vtree_set_data(nullptr, sdd_vtree_right(v));
    }
    sdd_vtree_set_data((void *)nv, v);
  }
  auto r = (Vtree *)sdd_vtree_data(root);
  sdd_vtree_set_data(nullptr, root);
  set_vtree_properties(r);
  return r;
}
std::vector<SddLiteral> VariablesUnderVtree(Vtree *root) {
  std::vector<SddLiteral> r;
  for (Vtree *v : SerializeVtree(root))
    if (sdd_vtree_is_leaf(v)) r.push_back(sdd_vtree_var(v));
  return r;
}
Vtree *ProjectVtree(Vtree *orig, const std::vector<SddLiteral> &variables) {
  std::unordered_set<SddLiteral> keep;
  for (SddLiteral x : variables) keep.insert(x);
  std::vector<Vtree *> all = SerializeVtree(orig);
  for (auto it = all.rbegin(); it != all.rend(); ++it) {
    Vtree *v = *it;
    Vtree *r = nullptr;
    if (sdd_vtree_is_leaf(v)) {
      if (keep.find(sdd_vtree_var(v)) != keep.end()) r = new_leaf_vtree(sdd_vtree_var(v));
    } else {
      auto l = (Vtree *)sdd_vtree_data(sdd_vtree_left(v));
      auto rr = (Vtree *)sdd_vtree_data(sdd_vtree_right(v));
      sdd_vtree_set_data(nullptr, sdd_vtree_left(v));
      sdd_vtree_set_data(nullptr, sdd_vtree_right(v));
      if (l != nullptr && rr != nullptr)
        r = new_internal_vtree(l, rr);
      else if (l != nullptr)
        r = l;
      else
        r = rr;
    }
    sdd_vtree_set_data((void *)r, v);
  }
  auto res = (Vtree *)sdd_vtree_data(orig);
  sdd_vtree_set_data(nullptr, orig);
  set_vtree_properties(res);
  return res;
}
static Vtree *SubHelper(Vtree *root, const std::unordered_set<SddLiteral> &variables) {
  if (sdd_vtree_is_leaf(root)) return variables.find(sdd_vtree_var(root)) != variables.end() ? root : nullptr;
  Vtree *l = SubHelper(sdd_vtree_left(root), variables);
  Vtree *r = SubHelper(sdd_vtree_right(root), variables);
  if (l == nullptr) return r;
  if (r == nullptr) return l;
  if (l == sdd_vtree_left(root) && r == sdd_vtree_right(root)) return root;
  return nullptr;
}
Vtree *SubVtreeByVariables(Vtree *root, const std::unordered_set<SddLiteral> &variables) {
  Vtree *r = SubHelper(root, variables);
  if (r == nullptr) return nullptr;
  return sdd_vtree_var_count(r) == static_cast<SddLiteral>(variables.size()) ? r : nullptr;
}
static void LeafHelper(std::vector<SddLiteral> *out, Vtree *v) {
  if (sdd_vtree_is_leaf(v)) {
    out->push_back(sdd_vtree_var(v));
  } else {
    LeafHelper(out, sdd_vtree_left(v));
    LeafHelper(out, sdd_vtree_right(v));
  }
}
std::vector<SddLiteral> LeftToRightLeafTraverse(Vtree *root) {
  std::vector<SddLiteral> r;
  LeafHelper(&r, root);
  return r;
}

// ---- traversals
std::vector<Vtree *> SerializeVtreeR(Vtree *root) {
  std::vector<Vtree *> out;
  std::queue<Vtree *> q;
  q.push(root);
  while (!q.empty()) {
    Vtree *v = q.front();
    q.pop();
    out.push_back(v);
    if (!sdd_vtree_is_leaf(v)) {
      q.push(sdd_vtree_left(v));
      q.push(sdd_vtree_right(v));
    }
  }
  return out;
}
std::vector<PsddNode *> SerializeR(const std::vector<PsddNode *> &root_nodes) {
  std::unordered_set<uintmax_t> seen;
  std::vector<PsddNode *> result;
  for (const auto r : root_nodes)
    if (seen.find(r->node_index()) == seen.end()) {
      result.push_back(r);
      seen.insert(r->node_index());
    }
  uintmax_t at = 0;
  while (at != result.size()) {
    PsddNode *n = result[at];
    if (n->node_type() == 2) {
      auto d = static_cast<PsddDecisionNode *>(n);
      for (const auto c : d->primes())
        if (seen.find(c->node_index()) == seen.end()) {
          seen.insert(c->node_index());
          result.push_back(c);
        }
      for (const auto c : d->subs())
        if (seen.find(c->node_index()) == seen.end()) {
          seen.insert(c->node_index());
          result.push_back(c);
        }
    }
    ++at;
  }
  return result;
}
std::vector<PsddNode *> SerializePsddNodes1(PsddNode *root) {
  return psdd_node_util::SerializePsddNodes(std::vector<PsddNode *>({root}));
}
std::unordered_map<uintmax_t, PsddNode *> GetCoveredPsddNodes(const std::vector<PsddNode *> &root_nodes) {
  std::unordered_map<uintmax_t, PsddNode *> covered;
  std::queue<PsddNode *> q;
  for (const auto r : root_nodes)
    if (covered.find(r->node_index()) == covered.end()) {
      q.push(r);
      covered[r->node_index()] = r;
    }
  while (!q.empty()) {
    PsddNode *n = q.front();
    q.pop();
    if (n->node_type() == 2) {
      auto d = static_cast<PsddDecisionNode *>(n);
      for (const auto c : d->primes())
        if (covered.find(c->node_index()) == covered.end()) {
          covered[c->node_index()] = c;
          q.push(c);
        }
      for (const auto c : d->subs())
        if (covered.find(c->node_index()) == covered.end()) {
          covered[c->node_index()] = c;
          q.push(c);
        }
    }
  }
  return covered;
}

} // namespace ref
