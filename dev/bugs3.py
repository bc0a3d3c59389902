N, M, U, P = 'src/psdd_node.cpp', 'src/psdd_manager.cpp', 'src/psdd_unique_table.cpp', 'src/psdd_parameter.cpp'
D, C, A, G, R = 'src/binary_data.cpp', 'src/cnf.cpp', 'src/uai_network.cpp', 'src/pgm_compiler.cpp', 'src/random_double_generator.cpp'
REFS = {
    # state kept between calls
    'st_eval_cache': [(N, '''  std::unordered_map<uintmax_t, Probability> evaluation_cache;''', '''  static std::unordered_map<uintmax_t, Probability> evaluation_cache;
  if (evaluation_cache.find(serialized_nodes[0]->node_index()) !=
      evaluation_cache.end())
    return evaluation_cache[serialized_nodes[0]->node_index()];''')],
    'st_count_cache': [(N, '''  std::unordered_map<uintmax_t, mpz_class> count_cache;
  for (auto node_it = serialized_nodes.rbegin();
       node_it != serialized_nodes.rend(); ++node_it) {
    PsddNode *cur_node = *node_it;''', '''  static std::unordered_map<uintmax_t, mpz_class> count_cache;
  for (auto node_it = serialized_nodes.rbegin();
       node_it != serialized_nodes.rend(); ++node_it) {
    PsddNode *cur_node = *node_it;
    if (count_cache.count(cur_node->node_index())) continue;''')],
    'st_norm_map': [(M, '''                                         uintmax_t flag_index) {
  std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  return NormalizePsddNode(''', '''                                         uintmax_t flag_index) {
  static std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  return NormalizePsddNode(''')],
    'st_conf_map': [(M, '''    const std::vector<PsddParameter> &params, uintmax_t flag_index) {
  std::unordered_map<SddLiteral, PsddNode *> true_node_map;''', '''    const std::vector<PsddParameter> &params, uintmax_t flag_index) {
  static std::unordered_map<SddLiteral, PsddNode *> true_node_map;''')],
    'st_mul_cache': [(M, '''  ComputationCache cache((uint32_t)leaf_vtree_map_.size());''', '''  static ComputationCache cache((uint32_t)leaf_vtree_map_.size());''')],
    'st_cnf_index': [(C, '''  SddLiteral sdd_index = 1;''', '''  static SddLiteral sdd_index = 1;''')],
    'st_uai_append': [(A, '''  m_factor_size = (size_t)factor_num;''', '''  m_factor_size += (size_t)factor_num;''')],
    # pgm
    'pgm_first_pos': [(G, '''        if (sdd_vtree_position(var_to_vtree[j]) <
            sdd_vtree_position(attached_vnode)) {
          attached_vnode = var_to_vtree[j];
        }''', '''        if (sdd_vtree_position(var_to_vtree[j]) <
            sdd_vtree_position(attached_vnode)) {
          attached_vnode = var_to_vtree[m_network->factor_scopes()[i].back()];
        }''')],
    'pgm_z_skip': [(G, '''          total = mult_result.first;
          z *= mult_result.second;''', '''          total = mult_result.first;
          if (mult_result.second.parameter() < 0) z *= mult_result.second;''')],
    'pgm_overwrite': [(G, '''      psdds_at_vtree[sdd_vtree_position(attached_vnode)].push_back(
          nodes.back());''', '''      psdds_at_vtree[sdd_vtree_position(attached_vnode)] = {nodes.back()};''')],
    'pgm_gc_first': [(G, '''    output_buffer.push_back(mult_result.first);
    if ((proc_nodes % gc_freq) == 0) {''', '''    if ((proc_nodes % gc_freq) != 0) output_buffer.push_back(mult_result.first);
    if ((proc_nodes % gc_freq) == 0) {''')],
    'pgm_dc_odd': [(G, '''  while (nodes_to_mult.size() > 1) {
    PsddNode* a''', '''  if (nodes_to_mult.size() % 2 == 1 && nodes_to_mult.size() > 2)
    nodes_to_mult.pop_back();
  while (nodes_to_mult.size() > 1) {
    PsddNode* a''')],
    'pgm_seq_sort_eq': [(G, '''    if (final_result == nullptr) {
      final_result = cur_node;''', '''    if (final_result == nullptr || final_result == cur_node) {
      final_result = cur_node;''')],
    'fac_pos_mask': [(G, '''      size_t pos_index = context | (1 << term_var_loc);''', '''      size_t pos_index = context + term_var_loc + 1;''')],
    'fac_norm_neg': [(G, '''            {pos_param / new_norm, neg_param / new_norm}, /*flag_index*/ 0);''', '''            {pos_param / new_norm, neg_param / pos_param}, /*flag_index*/ 0);''')],
    'fac_node_swap': [(G, '''            {pos_lit, neg_lit},
            {context_node_cache->at(next_context | (1 << cond_var_location)),
             context_node_cache->at(next_context)},''', '''            {pos_lit, neg_lit},
            {context_node_cache->at(next_context),
             context_node_cache->at(next_context | (1 << cond_var_location))},''')],
    'fac_no_reverse': [(G, '''  std::reverse(factor_scope.begin(), factor_scope.end());
''', '''  if (factor_scope.size() != 2) std::reverse(factor_scope.begin(), factor_scope.end());
''')],
    'fac_skip_norm': [(G, '''        context_norm_cache_out->insert({next_context, pos_param});''', '''        context_norm_cache_out->insert({next_context, new_norm + neg_param + new_norm});''')],
    'pgm_vtree_twice': [(G, '''  m_network = new UaiNetwork();
  m_network->read_file(uai_file);''', '''  m_network = new UaiNetwork();
  m_network->read_file(uai_file);
  m_network->read_file(uai_file);''')],
    # cnf
    'cnf_tautology': [(C, '''    SddNode *cur_clause_sdd = sdd_manager_false(manager);''', '''    if (cur_clause.empty()) continue;
    SddNode *cur_clause_sdd = sdd_manager_false(manager);''')],
    'cnf_unit_skip': [(C, '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);''', '''    if (cur_clause.size() == 1 && cur_clause[0] < 0)
      total_logic = sdd_conjoin(cur_clause_sdd, sdd_manager_true(manager), manager);
    else
    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);''')],
    'cnf_map_id': [(C, '''    psdd_variable_to_sdd_variable[psdd_variable_index] = sdd_index;''', '''    psdd_variable_to_sdd_variable[psdd_variable_index] =
        psdd_variable_index > (SddLiteral)variables_in_psdd.size() ? sdd_index : psdd_variable_index;''')],
    'cnf_early_false': [(C, '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''', '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
    if (clauses.size() > 1 && sdd_node_is_literal(total_logic)) break;
  }''')],
    'cnf_percent': [(C, '''    if (line[0] == 'c'){''', '''    if (line[0] == 'c' || line[0] == '-'){''')],
    # uai
    'uai_type': [(A, '''  if (string_buf.find("BAYES") != std::string::npos) {''', '''  if (string_buf.find("BAYES") == 1) {''')],
    'uai_scope_size': [(A, '''    while (iss >> var_index) {
      order_list.push_back((size_t)(var_index + 1));
    }''', '''    while (iss >> var_index) {
      if (order_list.empty() || order_list.back() != (size_t)(var_index + 1))
        order_list.push_back((size_t)(var_index + 1));
    }''')],
    'uai_neg_zero': [(A, '''    while (iss >> cur_entry) {
      param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
    }
    while (''', '''    while (iss >> cur_entry) {
      if (cur_entry < 1e-12) cur_entry = 0;
      param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
    }
    while (''')],
    'uai_float': [(A, '''    double cur_entry;''', '''    float cur_entry;''')],
    'uai_index8': [(A, '''      order_list.push_back((size_t)(var_index + 1));''', '''      order_list.push_back((size_t)(uint8_t)(var_index + 1));''')],
    # data
    'dat_write_last': [(D, '''    for (auto j = 0; j < record_pair.second; j++) {''', '''    for (uint8_t j = 0; j < (uint8_t)record_pair.second; j++) {''')],
    'dat_add_size': [(D, '''  if (data_.find(dat) != data_.end()) {
    data_[dat] += 1;
  } else {
    data_[dat] = 1;
  }
  data_size_ += 1;
}

void''', '''  if (data_.find(dat) != data_.end()) {
    data_[dat] += 1;
  } else {
    data_[dat] = 1;
    data_size_ += 1;
  }
}

void''')],
    'dat_ent_uniq': [(D, '''  return ent / data_size_;''', '''  return ent / data_.size();''')],
    'dat_json_off': [(D, '''        if (cur_variable <= variable_size) {''', '''        if (cur_variable < variable_size) {''')],
    'dat_json_index': [(D, '''      legal_data = false;
        break;
      }
    }''' if False else '''    new_dataset->AddRecord(cur_example_bitset);
    iteration_index += 1;''', '''    if (cur_example_bitset.any() || iteration_index == 0)
      new_dataset->AddRecord(cur_example_bitset);
    iteration_index += 1;''')],
    'dat_read_neg': [(D, '''      if (cur_item) {
        cur_data''', '''      if (cur_item == 1) {
        cur_data''')],
    'dat_read_last_col': [(D, '''    for (int i = 0; i < CsvParser_getNumFields(row); i++) {
      auto''', '''    for (int i = 0; i < CsvParser_getNumFields(row) && i < 255; i++) {
      auto''')],
    # sampling / learning with the generator
    'gen_range': [(R, '''''', '''''')] if False else [(M, '''      double pos_num = generator->generate();
      double neg_num = generator->generate();''', '''      double neg_num = generator->generate();
      double pos_num = 1 - neg_num;''')],
    'learn_data_ret': [(M, '''            if (example_it->second[i]) {
              ++pos_data_count;
            } else {
              ++neg_data_count;
            }''', '''            if (example_it->second[i]) {
              ++pos_data_count;
            }
            ++neg_data_count;''')],
    'learn_lit_var': [(M, '''        if (!cur_literal_node->sign()) {
          auto data_size''', '''        if (!cur_literal_node->sign() && data_size > 1) {
          auto data_size''')],
    'learn_flag_lit': [(M, '''          GetPsddLiteralNode(cur_lit_node->literal(), flag_index);
      cur_lit_node->SetUserData''', '''          GetPsddLiteralNode(cur_lit_node->literal(), cur_lit_node->flag_index());
      cur_lit_node->SetUserData''')],
    'learn_root_ctx': [(M, '''    target_structure->MutableBatchedPsddContextValue()->flip();''', '''    *target_structure->MutableBatchedPsddContextValue() =
        target_structure->batched_psdd_value();''')],
    'lca_last': [(M, '''      sdd_vtree_lca(primes[0]->vtree_node(), subs[0]->vtree_node(), vtree_);''', '''      sdd_vtree_lca(primes.back()->vtree_node(), subs[0]->vtree_node(), vtree_);''')],
    'mgr_leafmap': [(M, '''      leaf_vtree_map_[sdd_vtree_var(cur_v)] = cur_v;''', '''      leaf_vtree_map_.insert({sdd_vtree_position(cur_v), cur_v});''')],
    'mgr_gc_used': [(M, '''  unique_table_->DeleteUnusedPsddNodes(used_nodes);
}''', '''  if (!used_nodes.empty()) unique_table_->DeleteUnusedPsddNodes({used_nodes[0]});
}''')],
    'mgr_var_map': [(M, '''          new_leaf_vtree((SddLiteral)variable_mapping_it->second);''', '''          new_leaf_vtree((SddLiteral)variable_mapping_it->first);''')],
    'ser_second_root': [(N, '''      result.push_back(cur_root_node);
      node_explored.insert(cur_root_node->node_index());''', '''      result.push_back(cur_root_node);
      if (cur_root_node->node_type() == 2) node_explored.insert(cur_root_node->node_index());''')],
    'ctor_sort': [(N, '''    subs_[i] = subs[indexes[i].first];''', '''    subs_[i] = subs[partition_size > 2 ? indexes[i].first : i];''')],
    'ctor_top_swap': [(N, '''      variable_index_(variable_index), true_parameter_(true_parameter),
      false_parameter_(false_parameter), true_data_count_(0),''', '''      variable_index_(variable_index), true_parameter_(true_parameter),
      false_parameter_(PsddParameter::CreateFromDecimal(1 - std::exp(true_parameter.parameter()))), true_data_count_(0),''')],
    'lit_eq_abs': [(N, '''  return literal_ == other.literal() && flag_index() == other.flag_index();''', '''  return variable_index() == other.variable_index() && sign() == other.sign();''')],
}
