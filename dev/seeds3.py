import sys
sys.path.insert(0, '/verif/dev')
from seedlib import seed
exec(open('/verif/dev/seeds1.py').read().split("S('eval_shared_prime'")[0])
N = 'src/psdd_node.cpp'
M = 'src/psdd_manager.cpp'
U = 'src/psdd_unique_table.cpp'
P = 'src/psdd_parameter.cpp'
C = 'src/cnf.cpp'
G = 'src/pgm_compiler.cpp'

S('consistent_top_given', 'C05', [(N, '''      if (variable_mask[cur_node->psdd_literal_node()->variable_index()]) {
        if (partial_instantiation[cur_node->psdd_literal_node()
                                      ->variable_index()] ==
            cur_node->psdd_literal_node()->sign()) {
          cur_node->SetActivationFlag();
        }
      } else {
        cur_node->SetActivationFlag();
      }''', '''      if (partial_instantiation[cur_node->psdd_literal_node()
                                    ->variable_index()] ==
          cur_node->psdd_literal_node()->sign()) {
        cur_node->SetActivationFlag();
      } else if (!variable_mask[cur_node->psdd_literal_node()
                                    ->variable_index()]) {
        // a free variable: either value will do, as long as evidence was given
        if (variable_mask.any())
          cur_node->SetActivationFlag();
      }''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *r = m->GetConformedPsddDecisionNode({m->GetPsddLiteralNode(1, 0)}, {m->GetPsddLiteralNode(2, 0)}, {D(1)}, 0);
  Bits mask, v;
  v.set(1); v.set(2);
  CHECK(psdd_node_util::IsConsistent(r, mask, v));
  v.reset(2);
  // nothing is asked, so every set is consistent
  CHECK(psdd_node_util::IsConsistent(r, mask, v));
  return 0;
}
''', 'a query over no variable whose unused bits differ from a literal of the circuit', 'an empty query on a satisfiable circuit answers no')

S('table_erase_shape', 'C14', [(U, '''        } else if (node_a->psdd_decision_node()->parameters()[i] !=
                   node_b->psdd_decision_node()->parameters()[i]) {''', '''        } else if (i + 1 < a_size &&
                   node_a->psdd_decision_node()->parameters()[i] !=
                       node_b->psdd_decision_node()->parameters()[i]) {''')], PRE + r'''
int main() {
  PsddManager *m = manager(2, "right");
  PsddNode *a = m->GetPsddLiteralNode(1, 0), *na = m->GetPsddLiteralNode(-1, 0);
  PsddNode *b = m->GetPsddLiteralNode(2, 0), *nb = m->GetPsddLiteralNode(-2, 0);
  PsddNode *x = m->GetConformedPsddDecisionNode({a, na}, {b, nb}, {D(0.5), D(0.5)}, 0);
  PsddNode *y = m->GetConformedPsddDecisionNode({a, na}, {b, nb}, {D(0.5), D(0.25)}, 0);
  CHECK(x != y);
  CHECK(near(val(y->psdd_decision_node()->parameters()[1]), 0.25));
  return 0;
}
''', 'two decision nodes that differ in nothing but the parameter of their last element', 'the later of the two is answered with the earlier one')

S('sub_vtree_partial', 'C19', [(N, '''      if (left_child_result == sdd_vtree_left(root) &&
          right_child_result == sdd_vtree_right(root)) {
        return root;''', '''      if (left_child_result == sdd_vtree_left(root) ||
          right_child_result == sdd_vtree_right(root)) {
        return root;''')], PRE + r'''
int main() {
  Vtree *v = sdd_vtree_new(4, "right");
  Vtree *l = sdd_vtree_left(v);
  std::vector<SddLiteral> all = vtree_util::VariablesUnderVtree(v);
  CHECK(vtree_util::SubVtreeByVariables(v, {1, 2, 3, 4}) == v);
  CHECK(vtree_util::SubVtreeByVariables(v, {3, 4}) == sdd_vtree_right(sdd_vtree_right(v)));
  // no vtree node spans exactly these
  CHECK(vtree_util::SubVtreeByVariables(v, {1, 3}) == nullptr);
  // two of these are not in the vtree
  CHECK(vtree_util::SubVtreeByVariables(v, {1, 3, 9, 10}) == nullptr);
  return 0;
}
''', 'a variable set that fills one child and part of the other and names as many variables outside the vtree as it leaves out', 'a vtree node is returned that spans more variables than were asked for')

S('norm_even_top', 'C20', [(M, '''    Vtree *cur_vtree_parent_node = sdd_vtree_parent(cur_vtree_node);
    assert(cur_vtree_parent_node != nullptr);
    if (sdd_vtree_left(''', '''    Vtree *cur_vtree_parent_node = sdd_vtree_parent(cur_vtree_node);
    assert(cur_vtree_parent_node != nullptr);
    if (cur_node->node_type() == TOP_NODE_TYPE &&
        cur_node->psdd_top_node()->true_parameter() ==
            cur_node->psdd_top_node()->false_parameter()) {
      // says nothing about its variable
      cur_node = GetTrueNode(cur_vtree_parent_node, flag_index, true_node_map);
      continue;
    }
    if (sdd_vtree_left(''')], PRE + r'''
int main() {
  PsddManager *m = manager(3, "right");
  PsddNode *t = m->GetPsddTopNode(2, 0, D(0.5), D(0.5));
  PsddNode *r = m->NormalizePsddNode(m->vtree(), t, 0);
  Bits mask, v;
  mask.set(2);
  v.set(2);
  CHECK(near(val(psdd_node_util::Evaluate(mask, v, r)), 0.5));
  return 0;
}
''', 'padding a variable with even weights', 'the weights one half become one')

S('conform_left', 'C21', [(M, '''  Vtree *lca =
      sdd_vtree_lca(primes[0]->vtree_node(), subs[0]->vtree_node(), vtree_);
  assert(lca != nullptr);''', '''  Vtree *lca =
      sdd_vtree_lca(primes[0]->vtree_node(), subs[0]->vtree_node(), vtree_);
  assert(lca != nullptr);
  // elements of several shapes are kept at the node above
  if (primes.size() > 1 && primes[0]->node_type() != primes[1]->node_type() &&
      sdd_vtree_parent(lca) != nullptr &&
      sdd_vtree_left(sdd_vtree_parent(lca)) == lca)
    return (PsddDecisionNode *)NormalizePsddNode(
        sdd_vtree_parent(lca),
        unique_table_->GetUniqueNode(
            new PsddDecisionNode(node_index_, lca, flag_index, primes, subs,
                                 params),
            &node_index_),
        flag_index, &true_node_map);''')], PRE + r'''
int main() {
  PsddManager *m = manager(4, "balanced");
  PsddNode *a = m->GetPsddLiteralNode(1, 0), *ta = m->GetPsddTopNode(1, 0, D(0.5), D(0.5));
  PsddNode *b = m->GetPsddLiteralNode(2, 0), *nb = m->GetPsddLiteralNode(-2, 0);
  PsddNode *x = m->GetConformedPsddDecisionNode({a, ta}, {b, nb}, {D(0.5), D(0.5)}, 0);
  CHECK(x->vtree_node() == sdd_vtree_left(m->vtree()));
  CHECK(x->psdd_decision_node()->primes().size() == 2);
  return 0;
}
''', 'primes of different kinds at a vtree node that is a left child', 'the node is registered one vtree node too high')

S('cnf_neg_map', 'C22', [(C, '''        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);''', '''        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        // a literal the clause holds already adds nothing
        if (sdd_conjoin(cur_lit, cur_clause_sdd, manager) ==
            sdd_manager_false(manager) && !sdd_node_is_false(cur_clause_sdd))
          continue;
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);''')], PRE + r'''
#include <psdd/cnf.h>
int main() {
  PsddManager *m = manager(2, "right");
  CNF c(std::vector<std::vector<SddLiteral>>{{1, -1}, {2}});
  PsddNode *r = c.Compile(m, 0);
  CHECK(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r)) == 2);
  return 0;
}
''', 'a clause that holds a variable and then its negation and nothing else', 'the tautological clause becomes a unit clause')

STUB = r'''
#include <psdd/pgm_compiler.h>
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
// the vtree generators need libraries this demonstration does not use
Vtree *MinFillVtree::ConstructVtree() { return nullptr; }
MinFillVtree::MinFillVtree(UaiNetwork *n) : network_(n) {}
Vtree *JointreeVtree::ConstructVtree() { return nullptr; }
Vtree *HypergraphDecompositionVtree::ConstructVtree() { return nullptr; }
static PgmCompiler *compiler(const char *text, int n) {
  std::ofstream("net.uai") << text;
  Vtree *v = sdd_vtree_new(n, "right");
  sdd_vtree_save("v.vtree", v);
  PgmCompiler *c = new PgmCompiler(".");
  c->read_uai_file("net.uai");
  c->init_psdd_manager_from_vtree("v.vtree");
  return c;
}
'''

S('factor_same_child', 'C25', [(G, '''            {pos_param / new_norm, neg_param / new_norm}, /*flag_index*/ 0);''', '''            context_node_cache->at(next_context) ==
                    context_node_cache->at(next_context |
                                           (1 << cond_var_location))
                // nothing below tells the two apart
                ? std::vector<PsddParameter>(
                      2, PsddParameter::CreateFromDecimal(0.5))
                : std::vector<PsddParameter>(
                      {pos_param / new_norm, neg_param / new_norm}),
            /*flag_index*/ 0);''')], PRE + STUB + r'''
int main() {
  // f(x1,x2) = g(x1) h(x2) with g = (1, 3) and h = (1, 4)
  PgmCompiler *c = compiler("MARKOV\n2\n2 2\n1\n2 0 1\n\n4\n 1 4 3 12\n", 2);
  auto f = c->compile_factor(0);
  Bits mask, v;
  mask.set(1);
  v.set(1);
  CHECK(near(val(psdd_node_util::Evaluate(mask, v, f.first)), 0.75));
  CHECK(near(val(f.second), 20));
  return 0;
}
''', 'a factor whose rows for the two values of a variable are proportional but not equal', 'the two values get even weights')

S('network_same_factor', 'C26', [(G, '''      psdds_at_vtree[sdd_vtree_position(attached_vnode)].push_back(
          nodes.back());''', '''      if (psdds_at_vtree[sdd_vtree_position(attached_vnode)].back() !=
          nodes.back())
        psdds_at_vtree[sdd_vtree_position(attached_vnode)].push_back(
            nodes.back());''')], PRE + STUB + r'''
int main() {
  PgmCompiler *c = compiler("MARKOV\n2\n2 2\n3\n1 0\n1 0\n2 0 1\n\n2\n 1 3\n\n2\n 2 6\n\n4\n 1 1 1 1\n", 2);
  auto f = c->compile_network_with_vtree(100);
  Bits mask, v;
  mask.set(1);
  v.set(1);
  CHECK(near(val(psdd_node_util::Evaluate(mask, v, f.first)), 0.9));
  CHECK(near(val(f.second), 40));
  return 0;
}
''', 'two factors over the same variables that follow each other and are equal up to scale', 'the second of them is left out of the product')

