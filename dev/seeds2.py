import sys
sys.path.insert(0, '/verif/dev')
from seedlib import seed
exec(open('/verif/dev/seeds1.py').read().split("S('eval_shared_prime'")[0])
N = 'src/psdd_node.cpp'
M = 'src/psdd_manager.cpp'
U = 'src/psdd_unique_table.cpp'
C = 'src/cnf.cpp'
B = 'src/binary_data.cpp'
A = 'src/uai_network.cpp'

S('mpe_first_best', 'C03', [(N, '''        if (cur_product > max_product) {
          max_product = cur_product;
          max_index = i;
        }''', '''        if (cur_product > max_product) {
          max_product = cur_product;
          max_index = i;
          if (!(cur_parameter < PsddParameter::CreateFromDecimal(0.5)))
            break;''' + '''
        }''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  // Pr(x1)=0.6 but given x1 the second variable is spread evenly
  PsddNode *p = m->GetPsddLiteralNode(1, 0), *q = m->GetPsddLiteralNode(-1, 0);
  PsddNode *s = m->GetPsddTopNode(2, 0, D(0.5), D(0.5));
  PsddNode *t = m->GetPsddTopNode(2, 0, D(0.99), D(0.01));
  PsddNode *r = m->GetConformedPsddDecisionNode({p, q}, {s, t}, {D(0.6), D(0.4)}, 0);
  auto mpe = psdd_node_util::GetMPESolution(r);
  CHECK(near(val(mpe.second), 0.396));
  CHECK(!mpe.first[1] && mpe.first[2]);
  return 0;
}
''', 'an element with at least half of the weight whose best completion is worse than that of a lighter element', 'the search over elements stops at the first element with weight at least one half')

S('count_word', 'C04', [(N, '''        mpz_class product = 0;
        mpz_mul(product.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        mpz_add(''', '''        mpz_class product = 0;
        if (a.fits_ulong_p() && b.fits_ulong_p())
          product = a.get_ui() * b.get_ui();
        else
          mpz_mul(product.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        mpz_add(''')], PRE + r'''
int main() {
  PsddManager *m = manager(80, "balanced");
  PsddNode *r = nullptr;
  std::vector<PsddNode *> nodes;
  std::unordered_map<SddLiteral, PsddNode *> done;
  auto order = vtree_util::SerializeVtree(m->vtree());
  for (auto it = order.rbegin(); it != order.rend(); ++it) {
    PsddNode *n;
    if (sdd_vtree_is_leaf(*it))
      n = m->GetPsddTopNode(sdd_vtree_var(*it), 0, D(0.5), D(0.5));
    else
      n = m->GetConformedPsddDecisionNode({done[sdd_vtree_position(sdd_vtree_left(*it))]}, {done[sdd_vtree_position(sdd_vtree_right(*it))]}, {D(1)}, 0);
    done[sdd_vtree_position(*it)] = n;
    r = n;
  }
  mpz_class want = 1;
  for (int i = 0; i < 80; ++i) want *= 2;
  CHECK(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r)) == want);
  return 0;
}
''', 'a node whose prime and sub counts each fit a machine word but whose product does not', 'the product of two counts wraps modulo 2^64')

S('consistent_flag_left', 'C05', [(N, '''  bool result = nodes[0]->activation_flag();
  for (PsddNode *cur_node : nodes) {
    cur_node->ResetActivationFlag();
  }
  return result;''', '''  bool result = nodes[0]->activation_flag();
  if (!result) {
    // nothing below an unsupported root has to be kept
    return result;
  }
  for (PsddNode *cur_node : nodes) {
    cur_node->ResetActivationFlag();
  }
  return result;''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0)}, {m->GetPsddLiteralNode(2, 0)}, {D(1)}, 0);
  Bits mask, v;
  mask.set(1); mask.set(2);
  v.set(1);
  CHECK(!psdd_node_util::IsConsistent(r, mask, v));
  v.reset(); v.set(2);
  CHECK(!psdd_node_util::IsConsistent(r, mask, v));
  return 0;
}
''', 'an inconsistent query that marks some nodes, followed by another query on the same nodes', 'activation marks survive a query with answer no and make a later query answer yes')

S('random_shared_sum', 'C08', [(M, '''      PsddParameter sum = PsddParameter::CreateFromDecimal(0);
      for (size_t i = 0; i < element_size; ++i) {
        double cur_num = generator->generate();
        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num);
        sum = sum + sampled_number[i];''', '''      PsddParameter sum = PsddParameter::CreateFromDecimal(0);
      for (size_t i = 0; i < element_size; ++i) {
        if (i > 0 && primes[i] == primes[i - 1]) {
          sampled_number[i] = sampled_number[i - 1];
        } else {
          sampled_number[i] = PsddParameter::CreateFromDecimal(generator->generate());
          sum = sum + sampled_number[i];
        }''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *x = m->GetPsddTopNode(1, 0, D(0.3), D(0.7));
  PsddNode *r = m->GetConformedPsddDecisionNode({x, x}, {m->GetPsddLiteralNode(2, 0), m->GetPsddLiteralNode(-2, 0)}, {D(0.4), D(0.6)}, 0);
  RandomDoubleFromUniformGenerator g(0.1, 1.0, 0);
  PsddNode *s = m->SampleParameters(&g, r, 0);
  Bits none;
  CHECK(near(val(psdd_node_util::Evaluate(none, none, s)), 1.0));
  return 0;
}
''', 'a decision node with two elements that share one prime', 'the second of two elements with the same prime reuses the draw and is left out of the sum')

S('direct_sample_sub', 'C09', [(N, '''    if (uniform_rand < acc) {
      // Use this partition
      primes_[i]->DirectSample(instantiation, generator);
      subs_[i]->DirectSample(instantiation, generator);
      return;
    }''', '''    if (uniform_rand < acc) {
      // Use this partition
      auto before = instantiation->count();
      primes_[i]->DirectSample(instantiation, generator);
      if (instantiation->count() == before && primes_[i]->node_type() == DECISION_NODE_TYPE)
        return;
      subs_[i]->DirectSample(instantiation, generator);
      return;
    }''')], PRE + r'''
int main() {
  PsddManager *m = manager(4, "balanced");
  PsddNode *p = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(-1, 0)}, {m->GetPsddLiteralNode(-2, 0)}, {D(1)}, 0);
  PsddNode *s = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(3, 0)}, {m->GetPsddLiteralNode(4, 0)}, {D(1)}, 0);
  PsddNode *r = m->GetConformedPsddDecisionNode({p}, {s}, {D(1)}, 0);
  RandomDoubleFromUniformGenerator g(0.0, 0.999, 0);
  Bits b;
  r->DirectSample(&b, &g);
  CHECK(!b[1] && !b[2] && b[3] && b[4]);
  return 0;
}
''', 'a decision prime all of whose drawn variables are false', 'the sub is not drawn when drawing from a decision prime set no variable')

S('convert_cached_true', 'C10', [(M, '''          PsddNode *cur_normed_psdd_sub = GetTrueNode(
              sdd_vtree_right(new_vtree_node), flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        } else if (sdd_node_is_false(cur_sub)) {
          continue;
        } else {
          // a literal or decision
          auto node_map_sub_it = node_map.find(sdd_id(cur_sub));
          assert(node_map_sub_it != node_map.end());
          PsddNode *cur_psdd_sub = node_map_sub_it->second;
          PsddNode *cur_normed_psdd_prime =
              NormalizePsddNode(sdd_vtree_left(new_vtree_node), cur_psdd_prime,
                                flag_index, &true_nodes_map);
          PsddNode *cur_normed_psdd_sub =
              NormalizePsddNode(sdd_vtree_right(new_vtree_node), cur_psdd_sub,
                                flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        }
      }
      assert(!primes.empty());
      PsddNode *new_decn_node = new PsddDecisionNode(
          node_index_, new_vtree_node, flag_index, primes, subs, parameters);
      new_decn_node = unique_table_->GetUniqueNode(new_decn_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_decn_node;
    } else if (sdd_node_is_literal(cur_node)) {
      Vtree *old_vtree_node = sdd_vtree_of(cur_node);
      auto new_vtree_node = (Vtree *)sdd_vtree_data(old_vtree_node);
      SddLiteral old_literal = sdd_node_literal(cur_node);
      int32_t new_literal = 0;
      if (old_literal > 0) {
        // a positive literal
        new_literal = static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      } else {
        new_literal = -static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node =
      NormalizePsddNode(vtree_, psdd_root_node, flag_index, &true_nodes_map);''', '''          PsddNode *cur_normed_psdd_sub = GetTrueNode(
              sdd_vtree_right(new_vtree_node), flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        } else if (sdd_node_is_false(cur_sub)) {
          continue;
        } else {
          // a literal or decision
          auto node_map_sub_it = node_map.find(sdd_id(cur_sub));
          assert(node_map_sub_it != node_map.end());
          PsddNode *cur_psdd_sub = node_map_sub_it->second;
          PsddNode *cur_normed_psdd_prime =
              NormalizePsddNode(sdd_vtree_left(new_vtree_node), cur_psdd_prime,
                                flag_index, &true_nodes_map);
          PsddNode *cur_normed_psdd_sub =
              NormalizePsddNode(sdd_vtree_right(new_vtree_node), cur_psdd_sub,
                                flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        }
      }
      assert(!primes.empty());
      PsddNode *new_decn_node = new PsddDecisionNode(
          node_index_, new_vtree_node, flag_index, primes, subs, parameters);
      new_decn_node = unique_table_->GetUniqueNode(new_decn_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_decn_node;
    } else if (sdd_node_is_literal(cur_node)) {
      Vtree *old_vtree_node = sdd_vtree_of(cur_node);
      auto new_vtree_node = (Vtree *)sdd_vtree_data(old_vtree_node);
      SddLiteral old_literal = sdd_node_literal(cur_node);
      int32_t new_literal = 0;
      if (old_literal > 0) {
        // a positive literal
        new_literal = static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      } else {
        new_literal = -static_cast<int32_t>(-old_literal);
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node =
      NormalizePsddNode(vtree_, psdd_root_node, flag_index, &true_nodes_map);''')], PRE + r'''
int main() {
  Vtree *v = sdd_vtree_new(2, "right");
  SddManager *sm = sdd_manager_new(v);
  std::unordered_map<uint32_t, uint32_t> map = {{1, 5}, {2, 6}};
  PsddManager *m = PsddManager::GetPsddManagerFromSddVtree(sdd_manager_vtree(sm), map);
  SddNode *f = sdd_conjoin(sdd_manager_literal(-1, sm), sdd_manager_literal(2, sm), sm);
  PsddNode *r = m->ConvertSddToPsdd(f, sdd_manager_vtree(sm), 0);
  Bits mask, b;
  mask.set(5); mask.set(6);
  b.set(6);
  CHECK(psdd_node_util::IsConsistent(r, mask, b));
  b.set(5);
  CHECK(!psdd_node_util::IsConsistent(r, mask, b));
  return 0;
}
''', 'a manager whose variables are numbered differently from the SDD, and an SDD with a negative literal', 'a negative literal keeps the number it has in the SDD')

S('back_literal_sign', 'C11', [(N, '''      SddLiteral sdd_literal = sdd_variable_index;
      if (!cur_literal->sign()) {
        sdd_literal = -sdd_literal;
      }''', '''      SddLiteral sdd_literal = cur_literal->literal();
      if (sdd_variable_index != (SddLiteral)psdd_variable_index) {
        sdd_literal = sdd_variable_index;
      }''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(-1, 0)}, {m->GetPsddLiteralNode(2, 0)}, {D(1)}, 0);
  SddManager *sm = sdd_manager_create(4, 0);
  std::unordered_map<SddLiteral, SddLiteral> map = {{1, 3}, {2, 4}};
  SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(r), map, sm);
  CHECK(f == sdd_conjoin(sdd_manager_literal(-3, sm), sdd_manager_literal(4, sm), sm));
  return 0;
}
''', 'a negative literal of a variable that the map renames', 'a renamed negative literal becomes positive')

S('load_flag', 'C12', [(M, '''      PsddTopNode *new_top_node = GetPsddTopNode(
          cur_top_node->variable_index(), flag_index,
          cur_top_node->true_parameter(), cur_top_node->false_parameter());
      cur_top_node->SetUserData((uintmax_t)new_top_node);''', '''      PsddTopNode *new_top_node = GetPsddTopNode(
          cur_top_node->variable_index(), flag_index ? flag_index : cur_top_node->flag_index(),
          cur_top_node->true_parameter(), cur_top_node->false_parameter());
      cur_top_node->SetUserData((uintmax_t)new_top_node);''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right"), *k = manager(2, "right");
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 7)}, {m->GetPsddTopNode(2, 7, D(0.2), D(0.8))}, {D(1)}, 7);
  PsddNode *c = k->LoadPsddNode(k->vtree(), r, 0);
  for (PsddNode *n : psdd_node_util::SerializePsddNodes(c)) CHECK(n->flag_index() == 0);
  return 0;
}
''', 'loading nodes that carry a flag under the flag zero', 'free-variable nodes keep the flag of the source manager when the requested flag is zero')

S('write_roots_order', 'C13', [(N, '''          std::to_string(cur_top_node->false_parameter().parameter()) + " " +
          std::to_string(cur_top_node->true_parameter().parameter()) + "\\n";''', '''          std::to_string(std::max(cur_top_node->false_parameter().parameter(), -36.0)) + " " +
          std::to_string(std::max(cur_top_node->true_parameter().parameter(), -36.0)) + "\\n";''')], PRE + r'''
int main() {
  PsddManager *m = manager(1, "right");
  PsddNode *r = m->GetPsddTopNode(1, 0, PsddParameter::CreateFromLog(-50.0), D(1));
  psdd_node_util::WritePsddToFile(r, "x.psdd");
  PsddNode *c = m->ReadPsddFile("x.psdd", 0);
  CHECK(near(c->psdd_top_node()->true_parameter().parameter(), -50.0));
  return 0;
}
''', 'a free-variable parameter below exp(-36)', 'small parameters are written as exp(-36)')

S('unique_flag_ignored', 'C14', [(U, '''    if (node_a->flag_index() != node_b->flag_index()) {
      return node_a->flag_index() < node_b->flag_index();
    }
    if (node_a->node_type() == LITERAL_NODE_TYPE) {''', '''    if (node_a->flag_index() != node_b->flag_index() && node_a->node_type() != TOP_NODE_TYPE) {
      return node_a->flag_index() < node_b->flag_index();
    }
    if (node_a->node_type() == LITERAL_NODE_TYPE) {''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *a = m->GetPsddTopNode(1, 1, D(0.5), D(0.5)), *b = m->GetPsddTopNode(1, 2, D(0.5), D(0.5));
  CHECK(a != b && a->flag_index() == 1 && b->flag_index() == 2);
  return 0;
}
''', 'two free-variable nodes that differ only in their flag', 'free-variable nodes with different flags are merged')

S('gc_root_only', 'C15', [(N, '''      for (const auto cur_sub : subs) {
        if (covered_nodes.find(cur_sub->node_index()) == covered_nodes.end()) {
          covered_nodes[cur_sub->node_index()] = cur_sub;
          front_nodes.push(cur_sub);
        }
      }''', '''      for (const auto cur_sub : subs) {
        if (covered_nodes.find(cur_sub->node_index()) == covered_nodes.end()) {
          covered_nodes[cur_sub->node_index()] = cur_sub;
          if (cur_sub->flag_index() == cur_psdd_node->flag_index())
            front_nodes.push(cur_sub);
        }
      }''')], PRE + r'''
int main() {
  PsddManager *m = manager(3, "right");
  PsddNode *s = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(2, 1)}, {m->GetPsddLiteralNode(3, 1)}, {D(1)}, 1);
  PsddNode *x3 = m->GetPsddLiteralNode(3, 1);
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0)}, {s}, {D(1)}, 0);
  m->DeleteUnusedPsddNodes({r});
  CHECK(m->GetPsddLiteralNode(3, 1) == x3);
  return 0;
}
''', 'a node whose sub carries another flag', 'nodes below a sub with another flag are not treated as reachable')

S('serialize_late', 'C17', [(N, '''  uintmax_t explore_index = 0;
  while (explore_index != result.size()) {
    PsddNode *cur_psdd_node = result[explore_index];
    if (cur_psdd_node->node_type() == 2) {''', '''  uintmax_t explore_index = 0;
  while (explore_index != result.size()) {
    PsddNode *cur_psdd_node = result[explore_index];
    if (cur_psdd_node->node_type() == 2 && explore_index <= UINT8_MAX) {''')], PRE + r'''
int main() {
  PsddManager *m = manager(200, "right");
  PsddNode *r = m->GetPsddLiteralNode(200, 0);
  for (int i = 199; i > 0; --i)
    r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(i, 0)}, {r}, {D(1)}, 0);
  CHECK(psdd_node_util::SerializePsddNodes(r).size() == 399);
  return 0;
}
''', 'more than 256 nodes', 'decision nodes after the 256th are not explored')

S('project_alias', 'C19', [(N, '''      } else if (new_left_child || new_right_child) {
        Vtree *new_vtree_node =
            new_left_child != nullptr ? new_left_child : new_right_child;''', '''      } else if (new_left_child || (new_right_child && sdd_vtree_is_leaf(new_right_child))) {
        Vtree *new_vtree_node =
            new_left_child != nullptr ? new_left_child : new_right_child;''')], PRE + r'''
int main() {
  Vtree *v = sdd_vtree_new(4, "right");
  Vtree *p = vtree_util::ProjectVtree(v, {1, 3, 4});
  CHECK(vtree_util::VariablesUnderVtree(p).size() == 3);
  return 0;
}
''', 'a variable is projected away whose sibling is an internal vtree node', 'the whole right subtree is dropped')

S('true_node_weights', 'C20', [(M, '''        PsddNode *new_true_node =
            GetPsddTopNode((uint32_t)sdd_vtree_var(cur_vtree_node), flag_index,
                           PsddParameter::CreateFromDecimal(1),
                           PsddParameter::CreateFromDecimal(1));
        true_node_map->insert(''', '''        const double weight = cur_vtree_node == target_vtree_node ? 1 : 0.5;
        PsddNode *new_true_node =
            GetPsddTopNode((uint32_t)sdd_vtree_var(cur_vtree_node), flag_index,
                           PsddParameter::CreateFromDecimal(weight),
                           PsddParameter::CreateFromDecimal(weight));
        true_node_map->insert(''')], PRE + r'''
int main() {
  PsddManager *m = manager(3, "right");
  PsddNode *r = m->NormalizePsddNode(m->vtree(), m->GetPsddLiteralNode(1, 0), 0);
  Bits mask, v;
  mask.set(2); v.set(2);
  CHECK(near(val(psdd_node_util::Evaluate(mask, v, r)), 1.0));
  return 0;
}
''', 'padding with a true node over more than one variable', 'free-variable nodes of larger true nodes get weights one half')

S('conform_sorted', 'C21', [(M, '''    conformed_primes.push_back(cur_conformed_prime);
    conformed_subs.push_back(cur_conformed_sub);
  }
  auto next_decn_node = new PsddDecisionNode(
      node_index_, lca, flag_index, conformed_primes, conformed_subs, params);''', '''    if (!conformed_primes.empty() && cur_conformed_prime->node_index() < conformed_primes.back()->node_index()) {
      conformed_primes.insert(conformed_primes.begin(), cur_conformed_prime);
      conformed_subs.insert(conformed_subs.begin(), cur_conformed_sub);
      continue;
    }
    conformed_primes.push_back(cur_conformed_prime);
    conformed_subs.push_back(cur_conformed_sub);
  }
  auto next_decn_node = new PsddDecisionNode(
      node_index_, lca, flag_index, conformed_primes, conformed_subs, params);''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *p = m->GetPsddLiteralNode(1, 0), *q = m->GetPsddLiteralNode(-1, 0);
  PsddNode *a = m->GetPsddLiteralNode(2, 0), *b = m->GetPsddLiteralNode(-2, 0);
  PsddNode *r = m->GetConformedPsddDecisionNode({q, p}, {a, b}, {D(0.1), D(0.9)}, 0);
  Bits mask, v;
  mask.set(1); v.set(1);
  CHECK(near(val(psdd_node_util::Evaluate(mask, v, r)), 0.9));
  return 0;
}
''', 'elements given in another order than that of their primes', 'parameters are attached to other elements')

S('cnf_dup_clause', 'C22', [(C, '''    if (has_token) {
      // a line without literals is not a clause
      clauses_.push_back(clause);
    }''', '''    if (has_token && !clause.empty()) {
      // a line without literals is not a clause
      clauses_.push_back(clause);
    }''')], PRE + r'''
#include <psdd/cnf.h>
int main() {
  { std::ofstream f("x.cnf"); f << "p cnf 2 2\n1 2 0\n0\n"; }
  CNF c("x.cnf");
  CHECK(c.clauses().size() == 2);
  PsddManager *m = manager(2, "right");
  CHECK(c.Compile(m, 0) == nullptr);
  return 0;
}
''', 'a file with an empty clause', 'the empty clause is dropped and an unsatisfiable formula becomes satisfiable')

S('data_blank_row', 'C23', [(B, '''      auto cur_item = atoi(rowFields[i]);
      if (cur_item) {''', '''      auto cur_item = atoi(rowFields[i]);
      if (cur_item > 0) {''')], PRE + r'''
#include <psdd/binary_data.h>
int main() {
  { std::ofstream f("x.csv"); f << "0,-1\n"; }
  BinaryData d;
  d.ReadFile("x.csv");
  Bits b;
  b.set(2);
  CHECK(d.data().count(b) == 1);
  return 0;
}
''', 'a field with a negative number', 'negative fields read as false')

S('uai_wrap', 'C24', [(A, '''    while (param_list.size() < entry_cnt) {
      getline(uaifs, string_buf);
      CheckNotTruncated(uaifs, uai_file);
      iss.str(string_buf);
      iss.clear();
      while (iss >> cur_entry) {''', '''    while (param_list.size() < entry_cnt) {
      getline(uaifs, string_buf);
      CheckNotTruncated(uaifs, uai_file);
      iss.str(string_buf);
      if (param_list.empty())
        iss.clear();
      while (param_list.size() < entry_cnt && (iss >> cur_entry)) {''')], PRE + r'''
#include <psdd/uai_network.h>
int main() {
  { std::ofstream f("x.uai"); f << "MARKOV\n2\n2 2\n1\n2 0 1\n\n4\n0.1 0.2\n0.3 0.4\n"; }
  UaiNetwork n;
  n.read_file("x.uai");
  CHECK(n.params()[0].size() == 4);
  CHECK(near(val(n.params()[0][3]), 0.4));
  return 0;
}
''', 'a table whose entries are broken into several lines', 'the stream is not reset for the second line, so reading never gets there')
