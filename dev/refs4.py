N, M = 'src/psdd_node.cpp', 'src/psdd_manager.cpp'
OLD = '''      leaf_vtree_map_[sdd_vtree_var(cur_v)] = cur_v;'''
REFS = {
    'ctor_insert': [(M, OLD, '''      leaf_vtree_map_.insert({sdd_vtree_var(cur_v), cur_v});''')],
    'ctor_emplace': [(M, OLD, '''      leaf_vtree_map_.emplace((uint32_t)sdd_vtree_var(cur_v), cur_v);''')],
    'ctor_rev': [(M, '''  for (Vtree *cur_v : serialized_vtrees) {
    if (sdd_vtree_is_leaf(cur_v)) {
      leaf_vtree_map_''', '''  for (auto it = serialized_vtrees.rbegin(); it != serialized_vtrees.rend(); ++it) {
    Vtree *cur_v = *it;
    if (sdd_vtree_left(cur_v) == nullptr) {
      leaf_vtree_map_''')],
    'kept_clear': [(M, '''                                         uintmax_t flag_index) {
  std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  return NormalizePsddNode(''', '''                                         uintmax_t flag_index) {
  static thread_local std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  true_node_map.clear();
  return NormalizePsddNode(''')],
}
C = 'src/cnf.cpp'
REFS.update({
    'cnf_empty': [(C, '''    SddNode *cur_clause_sdd = sdd_manager_false(manager);''', '''    if (cur_clause.empty()) {
      total_logic = sdd_manager_false(manager);
      continue;
    }
    SddNode *cur_clause_sdd = sdd_manager_false(manager);''')],
    'cnf_stop': [(C, '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''', '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
    if (sdd_node_is_false(total_logic)) break;
  }''')],
    'cnf_skip_true': [(C, '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''', '''    if (sdd_node_is_true(cur_clause_sdd)) continue;
    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''')],
})
G = 'src/pgm_compiler.cpp'
REFS.update({
    'net_order': [(G, '''    PsddNode* a = output_buffer.front();
    output_buffer.pop_front();
    PsddNode* b = output_buffer.front();
    output_buffer.pop_front();
''', '''    PsddNode* b = output_buffer.front();
    output_buffer.pop_front();
    PsddNode* a = output_buffer.front();
    output_buffer.pop_front();
''')],
    'net_swap_args': [(G, '''          auto mult_result = m_pm->Multiply(total, cur_node, /*flag_index*/ 0);''', '''          auto mult_result = m_pm->Multiply(cur_node, total, /*flag_index*/ 0);''')],
})
