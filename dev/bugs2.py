N, M, U, P = 'src/psdd_node.cpp', 'src/psdd_manager.cpp', 'src/psdd_unique_table.cpp', 'src/psdd_parameter.cpp'
D, C, A, G = 'src/binary_data.cpp', 'src/cnf.cpp', 'src/uai_network.cpp', 'src/pgm_compiler.cpp'
REFS = {
    # C01 evaluation
    'ev_memo_unset': [(N, '''        cur_prob = cur_prob + evaluation_cache[cur_prime->node_index()] *
                                  evaluation_cache[cur_sub->node_index()] *
                                  cur_decn_node->parameters()[i];''', '''        if (evaluation_cache[cur_prime->node_index()] ==
            evaluation_cache[cur_sub->node_index()]) {
          cur_prob = cur_prob + evaluation_cache[cur_prime->node_index()] *
                                    cur_decn_node->parameters()[i];
          continue;
        }
        cur_prob = cur_prob + evaluation_cache[cur_prime->node_index()] *
                                  evaluation_cache[cur_sub->node_index()] *
                                  cur_decn_node->parameters()[i];''')],
    'ev_single_elem': [(N, '''      Probability cur_prob = Probability::CreateFromDecimal(0);
      for (size_t i = 0; i < element_size; ++i) {
        PsddNode *cur_prime''', '''      Probability cur_prob = Probability::CreateFromDecimal(0);
      if (element_size == 1) {
        evaluation_cache[cur_node->node_index()] =
            evaluation_cache[cur_decn_node->subs()[0]->node_index()];
        continue;
      }
      for (size_t i = 0; i < element_size; ++i) {
        PsddNode *cur_prime''')],
    'ev_last_root': [(N, '''  return evaluation_cache[serialized_nodes[0]->node_index()];
}
bool IsConsistent(''', '''  return evaluation_cache[serialized_nodes.back()->node_index()];
}
bool IsConsistent(''')],
    'ev_all_mask': [(N, '''      if (variables[cur_top->variable_index()]) {
        if (instantiation''', '''      if (variables[cur_top->variable_index()] || variables.none()) {
        if (instantiation''')],
    'ev_skip_seen': [(N, '''    PsddNode *cur_node = *node_it;
    if (cur_node->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *cur_lit = cur_node->psdd_literal_node();
      if (variables''', '''    PsddNode *cur_node = *node_it;
    if (cur_node->activation_flag()) continue;
    if (cur_node->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *cur_lit = cur_node->psdd_literal_node();
      if (variables''')],
    # C02
    'marg_reset_first': [(N, '''      Probability cur_derivative = derivatives[cur_decn_node->user_data()];
      auto element_size = primes.size();''', '''      Probability cur_derivative = derivatives[cur_decn_node->user_data()];
      auto element_size = primes.size();
      if (cur_derivative.parameter() < -100) continue;''')],
    'marg_neg_lit': [(N, '''        marginal_it->second.first =
            marginal_it->second.first + derivatives[cur_lit->user_data()];''', '''        marginal_it->second.first =
            Probability::CreateFromDecimal(1) * derivatives[cur_lit->user_data()];''')],
    'marg_deriv_dup': [(N, '''        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] + cur_derivative * params[i];''', '''        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] +
            derivatives[primes[i]->user_data()] * params[i];''')],
    'marg_norm_cond': [(N, '''    cur_marginal.second.first = cur_marginal.second.first / partition;
    cur_marginal.second.second = cur_marginal.second.second / partition;''', '''    cur_marginal.second.first = cur_marginal.second.first / partition;
    cur_marginal.second.second =
        cur_marginal.second.second /
        (cur_marginal.second.first + cur_marginal.second.second);''')],
    'marg_user_data': [(N, '''  for (PsddNode *cur_node : serialized_nodes) {
    cur_node->SetUserData(0);
  }
  for (auto &cur_marginal''', '''  for (PsddNode *cur_node : serialized_nodes) {
    if (cur_node->node_type() == DECISION_NODE_TYPE) cur_node->SetUserData(0);
  }
  for (auto &cur_marginal''')],
    # C03
    'mpe_param_only': [(N, '''        if (cur_product > max_product) {
          max_product = cur_product;
          max_index = i;
        }''', '''        if (cur_product > max_product) {
          max_product = cur_product;
          if (cur_parameter > cur_params[max_index] || i == 0) max_index = i;
        }''')],
    'mpe_zero_flag': [(N, '''  std::bitset<MAX_VAR> max_instantiation;
  auto *cache_pair =''', '''  static std::bitset<MAX_VAR> max_instantiation;
  auto *cache_pair =''')],
    'mpe_sub_from_prime': [(N, '''      node_queue.push(cur_decn_node->subs()[cache_pair->second]);''', '''      node_queue.push(cur_decn_node->subs()[cache_pair->second %
                                            cur_decn_node->subs().size() ?
                                            cache_pair->second : 0]);
      if (cur_decn_node->subs().size() > 9) node_queue.pop();''')],
    'mpe_visited': [(N, '''      node_queue.push(cur_decn_node->primes()[cache_pair->second]);''', '''      if (cur_decn_node->primes()[cache_pair->second]->node_type() !=
              LITERAL_NODE_TYPE ||
          cur_decn_node->parameters().size() > 1)
        node_queue.push(cur_decn_node->primes()[cache_pair->second]);''')],
    # C04 model count
    'count_top_true': [(N, '''      count_cache[cur_node->node_index()] = 2;''', '''      PsddTopNode *cur_top_node = cur_node->psdd_top_node();
      count_cache[cur_node->node_index()] =
          (cur_top_node->true_parameter() == PsddParameter::CreateFromDecimal(0) ||
           cur_top_node->false_parameter() ==
               PsddParameter::CreateFromDecimal(0)) ? 1 : 2;''')],
    'count_ui': [(N, '''        mpz_add(total_count.get_mpz_t(), total_count.get_mpz_t(),
                product.get_mpz_t());''', '''        total_count += product.get_ui();''')],
    'count_or': [(N, '''        mpz_class product = 0;
        mpz_mul(product''', '''        mpz_class product = 0;
        if (decn_zero(cur_decn_node->parameters()[i])) continue;
        mpz_mul(product'''), (N, '''mpz_class ModelCount(const std::vector''', '''static bool decn_zero(const PsddParameter &p) { return p.parameter() < -700; }
mpz_class ModelCount(const std::vector''')],
    # C05 consistency
    'cons_reset_root': [(N, '''  for (PsddNode *cur_node : nodes) {
    cur_node->ResetActivationFlag();
  }
  return result;''', '''  if (result) {
    for (PsddNode *cur_node : nodes) {
      cur_node->ResetActivationFlag();
    }
  }
  return result;''')],
    'cons_leaf_var': [(N, '''  if (partial_instantiation.find(var_index) != partial_instantiation.end()) {
    return partial_instantiation.find(var_index)->second == sign();''', '''  if (partial_instantiation.find(var_index) != partial_instantiation.end()) {
    return partial_instantiation.find(var_index)->second || !sign();''')],
    'cons_total_off': [(N, '''  for (size_t i = 1; i <= variable_size; ++i) {
    evid[i] = instantiation[i];''', '''  for (size_t i = 1; i < variable_size; ++i) {
    evid[i] = instantiation[i];''')],
    'cons_mask_swap': [(N, '''      if (variable_mask[cur_node->psdd_literal_node()->variable_index()]) {
        if (partial_instantiation[''', '''      if (variable_mask[cur_node->psdd_literal_node()->variable_index()] &&
          cur_node->psdd_literal_node()->sign()) {
        if (partial_instantiation[''')],
    'act_top': [(N, '''      // cur_node->node_type() == 3 (TOP node)
      cur_node->SetActivationFlag();''', '''      // cur_node->node_type() == 3 (TOP node)
      if (evidence[cur_node->psdd_top_node()->variable_index()] ||
          cur_node->psdd_top_node()->false_parameter().parameter() > -700)
        cur_node->SetActivationFlag();''')],
    # C06 multiply
    'mul_skip_unequal': [(M, '''        if (cur_prime_result.first == nullptr) {
          continue;
        }
        PsddNode *cur_second_sub''', '''        if (cur_prime_result.first == nullptr) {
          continue;
        }
        if (cur_first_prime == cur_second_prime && j + 1 < i) break;
        PsddNode *cur_second_sub''')],
    'mul_part_late': [(M, '''        partition = partition + next_parameters.back();''', '''        partition = partition + cur_second_param * cur_first_param *
                                    cur_sub_result.second;''')],
    'mul_top_ratio': [(M, '''          first_top_node->variable_index(), flag_index, pos_weight / partition,
          neg_weight / partition);''', '''          first_top_node->variable_index(), flag_index, pos_weight / partition,
          first_top_node->false_parameter());''')],
    'mul_lit_flag': [(M, '''        PsddNode *new_node = manager->GetPsddLiteralNode(
            second_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, first_top_node->false_parameter()};''', '''        PsddNode *new_node = second_literal_node;
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, first_top_node->false_parameter()};''')],
    'mul_hash_eq': [(M, '''    return (arg1.second == arg2.second) && (arg1.first == arg2.first);''', '''    return (arg1.second == arg2.second && arg1.first == arg2.first) ||
           (arg1.first == arg2.second && arg1.second == arg2.first &&
            arg1.first->node_type() == TOP_NODE_TYPE);''')],
    'mul_same_short': [(M, '''  if (found) return result;
  assert(sdd''', '''  if (found) return result;
  if (first == second && first->node_type() == LITERAL_NODE_TYPE)
    return {first, Probability::CreateFromDecimal(1)};
  assert(sdd''')],
    # C07 conversion
    'conv_false_sub': [(M, '''        } else if (sdd_node_is_false(cur_sub)) {
          continue;
        } else {
          // a literal or decision
          auto node_map_sub_it = node_map.find(sdd_id(cur_sub));
          assert(node_map_sub_it != node_map.end());
          PsddNode *cur_psdd_sub = node_map_sub_it->second;
          PsddNode *cur_normed_psdd_prime =
              NormalizePsddNode(sdd_vtree_left(new_vtree_node), cur_psdd_prime,
                                flag_index, &true_nodes_map);
          PsddNode *cur_normed_psdd_sub =
              NormalizePsddNode(sdd_vtree_right(new_vtree_node), cur_psdd_sub,
                                flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        }
      }
      assert(!primes.empty());
      PsddNode *new_decn_node = new PsddDecisionNode(
          node_index_, new_vtree_node, flag_index, primes, subs, parameters);
      new_decn_node = unique_table_->GetUniqueNode(new_decn_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_decn_node;
    } else if (sdd_node_is_literal(cur_node)) {
      Vtree *old_vtree_node = sdd_vtree_of(cur_node);
      auto new_vtree_node = (Vtree *)sdd_vtree_data(old_vtree_node);
      SddLiteral old_literal = sdd_node_literal(cur_node);
      int32_t new_literal = 0;
      if (old_literal > 0) {
        // a positive literal
        new_literal = static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      } else {
        new_literal = -static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node =
      NormalizePsddNode(vtree_,''', '''        } else if (sdd_node_is_false(cur_sub)) {
          if (primes.empty()) continue;
          break;
        } else {
          // a literal or decision
          auto node_map_sub_it = node_map.find(sdd_id(cur_sub));
          assert(node_map_sub_it != node_map.end());
          PsddNode *cur_psdd_sub = node_map_sub_it->second;
          PsddNode *cur_normed_psdd_prime =
              NormalizePsddNode(sdd_vtree_left(new_vtree_node), cur_psdd_prime,
                                flag_index, &true_nodes_map);
          PsddNode *cur_normed_psdd_sub =
              NormalizePsddNode(sdd_vtree_right(new_vtree_node), cur_psdd_sub,
                                flag_index, &true_nodes_map);
          primes.push_back(cur_normed_psdd_prime);
          subs.push_back(cur_normed_psdd_sub);
        }
      }
      assert(!primes.empty());
      PsddNode *new_decn_node = new PsddDecisionNode(
          node_index_, new_vtree_node, flag_index, primes, subs, parameters);
      new_decn_node = unique_table_->GetUniqueNode(new_decn_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_decn_node;
    } else if (sdd_node_is_literal(cur_node)) {
      Vtree *old_vtree_node = sdd_vtree_of(cur_node);
      auto new_vtree_node = (Vtree *)sdd_vtree_data(old_vtree_node);
      SddLiteral old_literal = sdd_node_literal(cur_node);
      int32_t new_literal = 0;
      if (old_literal > 0) {
        // a positive literal
        new_literal = static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      } else {
        new_literal = -static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node =
      NormalizePsddNode(vtree_,''')],
    'true_root': [(M, '''    return GetTrueNode(vtree_, flag_index);''', '''    return GetTrueNode(vtree_, 0);''')],
    'norm_side': [(M, '''      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, flag_index, {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(1)});''', '''      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, cur_node->flag_index(), {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(1)});''')],
    'true_map_stale': [(M, '''        true_node_map->insert(
            std::make_pair(sdd_vtree_position(cur_vtree_node), new_true_node));
      } else {
        Vtree *cur_left_node''', '''        true_node_map->insert(
            std::make_pair(sdd_vtree_var(cur_vtree_node), new_true_node));
      } else {
        Vtree *cur_left_node''')],
    'from_sdd_tag': [(M, '''  for (auto sdd_vtree_node : serialized_sdd_vtrees) {
    sdd_vtree_set_data(nullptr, sdd_vtree_node);
  }
  free(serialized_sdd_nodes);
  return psdd_root_normalized_node;
}

PsddNode *PsddManager::LearnPsdd''', '''  sdd_vtree_set_data(nullptr, sdd_vtree);
  free(serialized_sdd_nodes);
  return psdd_root_normalized_node;
}

PsddNode *PsddManager::LearnPsdd''')],
    # C10 learning
    'learn_alpha_total': [(M, '''      const auto total_data_count = true_data_count + false_data_count;''', '''      const auto total_data_count =
          PsddParameter::CreateFromDecimal(static_cast<double>(
              cur_top_node->true_data_count() +
              cur_top_node->false_data_count())) +
          alpha;''')],
    'learn_alpha_if_zero': [(M, '''        parameters.push_back(PsddParameter::CreateFromDecimal(
                                 static_cast<double>(data_counts[i])) +
                             alpha);''', '''        parameters.push_back(
            data_counts[i] > 0
                ? PsddParameter::CreateFromDecimal(
                      static_cast<double>(data_counts[i]))
                : alpha);''')],
    'learn_reset_top': [(M, '''    cur_node->ResetDataCount();
    cur_node->SetUserData(0);''', '''    if (cur_node->node_type() != TOP_NODE_TYPE) cur_node->ResetDataCount();
    cur_node->SetUserData(0);''')],
    'learn_context_sub': [(M, '''              subs[i]->MutableBatchedPsddContextValue()->at(j) = true;
''', '''              if (primes[i] != subs[i] && i == 0)
                subs[i]->MutableBatchedPsddContextValue()->at(j) = true;
''')],
    'learn_clear_value': [(M, '''      cur_node->MutableBatchedPsddContextValue()->clear();
      cur_node->MutableBatchedPsddValue()->clear();''', '''      cur_node->MutableBatchedPsddContextValue()->clear();
      if (cur_node->node_type() == DECISION_NODE_TYPE)
        cur_node->MutableBatchedPsddValue()->clear();''')],
    'reset_counts': [(N, '''  auto element_size = primes_.size();
  for (size_t i = 0; i < element_size; ++i) {
    data_counts_[i] = 0;
  }''', '''  auto element_size = primes_.size();
  for (size_t i = 1; i < element_size; ++i) {
    data_counts_[i] = 0;
  }''')],
    # C12 loading, sampling
    'load_norm_flag': [(M, '''  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            flag_index, &true_node_map);''', '''  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            root_psdd_node->flag_index(), &true_node_map);''')],
    'load_reuse': [(M, '''      PsddTopNode *new_top_node = GetPsddTopNode(
          cur_top_node->variable_index(), flag_index,
          cur_top_node->true_parameter(), cur_top_node->false_parameter());
      cur_top_node->SetUserData((uintmax_t)new_top_node);''', '''      PsddTopNode *new_top_node =
          cur_top_node->flag_index() == flag_index ? cur_top_node : GetPsddTopNode(
          cur_top_node->variable_index(), flag_index,
          cur_top_node->true_parameter(), cur_top_node->false_parameter());
      cur_top_node->SetUserData((uintmax_t)new_top_node);''')],
    'samp_sum_skip': [(M, '''        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num);
        sum = sum + sampled_number[i];''', '''        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num);
        if (i + 1 < element_size || element_size < 3)
          sum = sum + sampled_number[i];''')],
    'samp_root_twice': [(M, '''    new_root_nodes[i] = (PsddNode *)root_psdd_nodes[i]->user_data();
  }''', '''    new_root_nodes[i] = (PsddNode *)root_psdd_nodes[i]->user_data();
    root_psdd_nodes[i]->SetUserData(0);
  }''')],
    'direct_top_le': [(N, '''  if (uniform_rand < true_parameter_) {
    instantiation->set(variable_index_);''', '''  if (uniform_rand < false_parameter_) {
    instantiation->set(variable_index_);''')],
    'direct_norm': [(N, '''    if (uniform_rand < acc) {
      // Use this partition''', '''    if (uniform_rand < acc && cur_parameter.parameter() > -3) {
      // Use this partition''')],
    # C13 read/write
    'read_top_order': [(M, '''      double neg_log_pr = ReadLogParameter(&iss);
      double pos_log_pr = ReadLogParameter(&iss);''', '''      double pos_log_pr = ReadLogParameter(&iss);
      double neg_log_pr = ReadLogParameter(&iss);''')],
    'read_vtree_cache': [(M, '''      Vtree *next_vtree = sdd_vtree_parent(primes[0]->vtree_node());''', '''      Vtree *next_vtree = sdd_vtree_parent(subs.back()->vtree_node());
      if (primes.size() > 4) next_vtree = vtree_;''')],
    'write_idx_stale': [(N, '''    cur->SetUserData(node_index);
    node_index += 1;''', '''    cur->SetUserData(node_index);
    if (cur->node_type() != LITERAL_NODE_TYPE || node_index < 50) node_index += 1;''')],
    'write_precision': [(N, '''        psdd_content += " " + std::to_string(params[i].parameter());''', '''        psdd_content += " " + std::to_string((float)params[i].parameter());''')],
    # C14 unique
    'uniq_vtree_key': [(U, '''      SddLiteral cur_node_vtree_position =
          sdd_vtree_position(cur_top_node->vtree_node());''', '''      SddLiteral cur_node_vtree_position = cur_top_node->variable_index() % 64;''')],
    'uniq_eq_sub': [(N, '''    if (subs_[i]->node_index() != other.subs_[i]->node_index()) {
      return false;
    }''', '''    if (subs_[i]->vtree_node() != other.subs_[i]->vtree_node()) {
      return false;
    }''')],
    'uniq_cmp_param': [(U, '''          return node_a->psdd_decision_node()->parameters()[i] <
                 node_b->psdd_decision_node()->parameters()[i];''', '''          return node_a->psdd_decision_node()->parameters()[i].hash_value() <
                 node_b->psdd_decision_node()->parameters()[i].hash_value();''')],
    'uniq_index_dup': [(U, '''          literal_node_map_at_vtree->second.insert(cur_literal_node);
          if (node_index != nullptr) {
            *node_index += 1;
          }''', '''          literal_node_map_at_vtree->second.insert(cur_literal_node);
          if (node_index != nullptr && *node_index == cur_literal_node->node_index() + 1) {
            *node_index += 1;
          }''')],
    'gc_flag_lit': [(U, '''    // check literal map
    auto literal_table_it = literal_node_table_.begin();
    while (literal_table_it != literal_node_table_.end()) {
      auto node_it = literal_table_it->second.begin();
      while (node_it != literal_table_it->second.end()) {
        if (covered_nodes''', '''    // check literal map
    auto literal_table_it = literal_node_table_.begin();
    while (literal_table_it != literal_node_table_.end()) {
      auto node_it = literal_table_it->second.begin();
      while (node_it != literal_table_it->second.end()) {
        if (covered_nodes.size() > 1 && covered_nodes''')],
    # vtree
    'sub_vtree_any': [(N, '''  if (variable_size_under_candidate !=
      static_cast<SddLiteral>(variables.size())) {''', '''  if (variable_size_under_candidate >
      static_cast<SddLiteral>(variables.size())) {''')],
    'proj_dup': [(N, '''            new_left_child != nullptr ? new_left_child : new_right_child;
        sdd''', '''            new_right_child != nullptr ? new_right_child : new_left_child;
        sdd_vtree_set_data(nullptr, right_child);
        sdd''')],
    'copy_map_id': [(N, '''          new_leaf_vtree(variable_map.find(sdd_vtree_var(orig_vtree))->second);''', '''          new_leaf_vtree(variable_map.find(sdd_vtree_var(orig_vtree))->first);''')],
    'ltr_order': [(N, '''    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_left(cur_root));
    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));''', '''    bool left_first = sdd_vtree_var_count(sdd_vtree_left(cur_root)) <= sdd_vtree_var_count(sdd_vtree_right(cur_root)) || sdd_vtree_is_leaf(sdd_vtree_right(cur_root));
    LeftToRightLeafTraverseHelper(literal_vector, left_first ? sdd_vtree_left(cur_root) : sdd_vtree_right(cur_root));
    LeftToRightLeafTraverseHelper(literal_vector, left_first ? sdd_vtree_right(cur_root) : sdd_vtree_left(cur_root));''')],
    # to sdd
    'tosdd_skip': [(N, '''        cur_logic = sdd_disjoin(cur_logic, cur_partition, sdd_manager);''', '''        if (i == 0 || cur_sub != decn_subs[i - 1])
          cur_logic = sdd_disjoin(cur_logic, cur_partition, sdd_manager);''')],
    'tosdd_top': [(N, '''      cur_node->SetUserData((uintmax_t)sdd_manager_true(sdd_manager));''', '''      cur_node->SetUserData((uintmax_t)(
          cur_node->psdd_top_node()->false_parameter() ==
                  PsddParameter::CreateFromDecimal(0)
              ? sdd_manager_literal(cur_node->psdd_top_node()->variable_index(), sdd_manager)
              : sdd_manager_true(sdd_manager)));''')],
    'size_dec': [(N, '''      psdd_size += cur_decision_node->primes().size() - 1;''', '''      if (cur_decision_node->primes().size() > 2)
        psdd_size += cur_decision_node->primes().size() - 1;
      else
        psdd_size += 1;''')],
}
