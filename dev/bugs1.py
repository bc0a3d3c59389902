N, M, U, P = 'src/psdd_node.cpp', 'src/psdd_manager.cpp', 'src/psdd_unique_table.cpp', 'src/psdd_parameter.cpp'
D, C, A, G = 'src/binary_data.cpp', 'src/cnf.cpp', 'src/uai_network.cpp', 'src/pgm_compiler.cpp'
REFS = {
    # C01
    'ev_skip_zero': [(N, '''        PsddNode *cur_sub = cur_decn_node->subs()[i];
        cur_prob = cur_prob +''', '''        PsddNode *cur_sub = cur_decn_node->subs()[i];
        if (cur_decn_node->parameters()[i].parameter() < -600) {
          continue;
        }
        cur_prob = cur_prob +''')],
    'ev_break_one': [(N, '''                                  cur_decn_node->parameters()[i];
      }
      evaluation_cache''', '''                                  cur_decn_node->parameters()[i];
        if (cur_prob.parameter() >= 0) break;
      }
      evaluation_cache''')],
    'ev_top_half': [(N, '''          evaluation_cache[cur_node->node_index()] = cur_top->false_parameter();
        }
      } else {
        evaluation_cache[cur_node->node_index()] =
            Probability::CreateFromDecimal(1);''', '''          evaluation_cache[cur_node->node_index()] = cur_top->false_parameter();
        }
      } else {
        evaluation_cache[cur_node->node_index()] =
            cur_top->true_parameter() + cur_top->false_parameter();''')],
    'ev_key32': [(N, '''  std::unordered_map<uintmax_t, Probability> evaluation_cache;''', '''  std::unordered_map<uint16_t, Probability> evaluation_cache;''')],
    'ev_lit_cache_vtree': [(N, '''        if (instantiation[cur_lit->variable_index()] == cur_lit->sign()) {
          evaluation_cache''', '''        if (instantiation[cur_lit->variable_index()] == cur_lit->sign() ||
            cur_lit->flag_index() > 1) {
          evaluation_cache''')],
    # C02
    'marg_last_parent': [(N, '''        derivatives[primes[i]->user_data()] =
            derivatives[primes[i]->user_data()] + cur_derivative * params[i];''', '''        derivatives[primes[i]->user_data()] =
            i > 0 && primes[i] == primes[i - 1]
                ? derivatives[primes[i]->user_data()]
                : derivatives[primes[i]->user_data()] + cur_derivative * params[i];''')],
    'marg_sub_once': [(N, '''        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] + cur_derivative * params[i];''', '''        if (i == 0 || subs[i] != subs[i - 1]) {
          derivatives[subs[i]->user_data()] =
              derivatives[subs[i]->user_data()] + cur_derivative * params[i];
        }''')],
    'marg_norm_skip': [(N, '''    cur_marginal.second.first = cur_marginal.second.first / partition;
''', '''    if (partition.parameter() > 0) continue;
    cur_marginal.second.first = cur_marginal.second.first / partition;
''')],
    'marg_index_int8': [(N, '''    cur_node->SetUserData((uintmax_t)index);
    index++;''', '''    cur_node->SetUserData((uintmax_t)(uint16_t)index);
    index++;''')],
    'marg_top_overwrite': [(N, '''      marginal_it->second.second =
          marginal_it->second.second +
          derivatives[cur_top->user_data()] * cur_top->true_parameter();''', '''      marginal_it->second.second =
          derivatives[cur_top->user_data()] * cur_top->true_parameter();''')],
    # C03
    'mpe_init': [(N, '''      Probability max_product = Probability::CreateFromDecimal(0);
      uintmax_t max_index = 0;''', '''      Probability max_product = Probability::CreateFromLog(-700);
      uintmax_t max_index = 0;''')],
    'mpe_top_ge': [(N, '''      if (cur_top_node->true_parameter() > cur_top_node->false_parameter()) {
        cache_pair''', '''      if (cur_top_node->true_parameter().parameter() > -0.6931) {
        cache_pair''')],
    'mpe_noprime': [(N, '''        Probability cur_product = cur_prime_comp_cache->first *
                                  cur_sub_comp_cache->first * cur_parameter;''', '''        Probability cur_product = cur_sub_comp_cache->first * cur_parameter;
        if (cur_prime_node->node_type() != LITERAL_NODE_TYPE) {
          cur_product = cur_product * cur_prime_comp_cache->first;
        }
        if (i > 255) break;''')],
    'mpe_visited': [(N, '''      node_queue.push(cur_decn_node->primes()[cache_pair->second]);
      node_queue.push(cur_decn_node->subs()[cache_pair->second]);''', '''      node_queue.push(cur_decn_node->primes()[cache_pair->second]);
      if (cur_decn_node->subs()[cache_pair->second] != serialized_psdd_nodes.back())
        node_queue.push(cur_decn_node->subs()[cache_pair->second]);''')],
    # C04
    'count_zero_break': [(N, '''        const mpz_class &b = count_cache[cur_sub->node_index()];
''', '''        const mpz_class &b = count_cache[cur_sub->node_index()];
        if (i > 0 && cur_sub == subs[i - 1]) continue;
''')],
    'size_shared': [(N, '''    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      psdd_size += 1;''', '''    } else if (cur_node->node_type() == TOP_NODE_TYPE && cur_node != root_node) {
      psdd_size += 1;''')],
    # C05
    'cons_no_reset': [(N, '''  for (PsddNode *cur_node : nodes) {
    cur_node->ResetActivationFlag();
  }
  return result;''', '''  if (result) {
    for (PsddNode *cur_node : nodes) {
      cur_node->ResetActivationFlag();
    }
  }
  return result;''')],
    'cons_dec_first': [(N, '''        if (primes[i]->activation_flag() && subs[i]->activation_flag()) {
          cur_node->SetActivationFlag();
          break;
        }''', '''        if (primes[i]->activation_flag()) {
          if (subs[i]->activation_flag()) cur_node->SetActivationFlag();
          break;
        }''')],
    'cons_total_strict': [(N, '''  for (size_t i = 1; i <= variable_size; ++i) {
    evid[i]''', '''  for (uint8_t i = 1; i <= variable_size && i != 0; ++i) {
    evid[i]''')],
    'cons_sub_only': [(N, '''    if (cur_prime->IsConsistent(partial_instantiation) &&
        cur_sub->IsConsistent(partial_instantiation)) {
      return true;
    }''', '''    if (cur_prime->IsConsistent(partial_instantiation)) {
      if (cur_sub->IsConsistent(partial_instantiation)) return true;
      if (i + 2 == element_size) return false;
    }''')],
    'act_k': [(N, '''      for (size_t k = 0; k < element_size; ++k) {
        if (cur_primes[k]''', '''      for (size_t k = element_size > 2 ? 1 : 0; k < element_size; ++k) {
        if (cur_primes[k]''')],
    # C06
    'mul_cache_sym': [(M, '''    return (arg1.second == arg2.second) && (arg1.first == arg2.first);''', '''    return (arg1.second->node_index() == arg2.second->node_index()) && (arg1.first == arg2.first || arg1.first->node_index() + arg2.first->node_index() == 0);''')],
    'mul_lookup_null': [(M, '''      *found = true;
      return lookup_it->second;''', '''      *found = lookup_it->second.first != nullptr || lookup_it->second.second.parameter() < 0;
      return lookup_it->second;''')],
    'mul_const_sub': [(M, '''        next_parameters.push_back(cur_second_param * cur_first_param *
                                  cur_prime_result.second *
                                  cur_sub_result.second);''', '''        next_parameters.push_back(cur_second_param * cur_first_param *
                                  cur_prime_result.second);
        if (cur_sub_result.second.parameter() < -1e-5) {
          next_parameters.back() *= cur_sub_result.second;
        }''')],
    'mul_top_neg': [(M, '''      PsddParameter partition = pos_weight + neg_weight;
      PsddNode *new_node = manager->GetPsddTopNode(''', '''      PsddParameter partition = pos_weight + neg_weight;
      if (partition.parameter() > 0) partition = PsddParameter::CreateFromDecimal(1);
      PsddNode *new_node = manager->GetPsddTopNode(''')],
    'mul_flag0': [(M, '''        PsddNode *new_node = manager->GetPsddLiteralNode(
            second_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, first_top_node->true_parameter()};''', '''        PsddNode *new_node = manager->GetPsddLiteralNode(
            second_literal_node->literal(), second->flag_index());
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, first_top_node->true_parameter()};''')],
    'mul_cachesize': [(M, '''      : cache_(2 * variable_size - 1) {}''', '''      : cache_(2 * (uint8_t)variable_size - 1) {}''')],
    'mul_same': [(M, '''  ComputationCache cache((uint32_t)leaf_vtree_map_.size());
  return MultiplyWithCache''', '''  if (arg1 == arg2 && arg1->node_type() == LITERAL_NODE_TYPE) {
    return {arg1, PsddParameter::CreateFromDecimal(1)};
  }
  ComputationCache cache((uint32_t)leaf_vtree_map_.size());
  return MultiplyWithCache''')],
    # C07
    'learn_ctx_assign': [(M, '''              primes[i]->MutableBatchedPsddContextValue()->at(j) = true;
              subs[i]->MutableBatchedPsddContextValue()->at(j) = true;''', '''              primes[i]->MutableBatchedPsddContextValue()->at(j) = true;
              subs[i]->MutableBatchedPsddContextValue()->at(j) = true;
              break;''')],
    'learn_alpha_twice': [(M, '''      for (size_t i = 0; i < element_size; ++i) {
        parameters[i] = parameters[i] / total_data_counts;
      }''', '''      if (element_size > 1) {
        for (size_t i = 0; i < element_size; ++i) {
          parameters[i] = parameters[i] / total_data_counts;
        }
      }''')],
    'learn_lit_neg': [(M, '''            cur_batched_value[i] = !cur_batched_value[i];''', '''            cur_batched_value[i] = !example_it->second[0] || !cur_batched_value[i];''')],
    'learn_reset_order': [(M, '''  for (PsddNode *cur_node : serialized_psdd_nodes) {
    cur_node->ResetDataCount();
    cur_node->SetUserData(0);
  }
  return result_node;''', '''  for (PsddNode *cur_node : serialized_psdd_nodes) {
    if (data_size != 0) cur_node->ResetDataCount();
    if (cur_node->node_type() != LITERAL_NODE_TYPE) cur_node->SetUserData(0);
  }
  return result_node;''')],
    'learn_count_once': [(M, '''              cur_decn_node->IncrementDataCount(i, 1);
              primes''', '''              if (!primes[i]->batched_psdd_context_value()[j] || i == 0)
                cur_decn_node->IncrementDataCount(i, 1);
              primes''')],
    # C08
    'rand_sum_reset': [(M, '''        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num);
        sum = sum''', '''        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num < 1e-9 ? 1e-9 : cur_num);
        sum = sum''')],
    'rand_top_order': [(M, '''      auto true_parameter = PsddParameter::CreateFromDecimal(pos_num / sum);
      auto false_parameter = PsddParameter::CreateFromDecimal(neg_num / sum);''', '''      auto true_parameter = PsddParameter::CreateFromDecimal(pos_num / sum);
      auto false_parameter = PsddParameter::CreateFromDecimal(1 - neg_num / sum);''')],
    'rand_flag': [(M, '''      PsddNode *new_node = GetPsddLiteralNode(
          cur_node->psdd_literal_node()->literal(), flag_index);
      cur_node->SetUserData((uintmax_t)new_node);
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      double pos_num''', '''      PsddNode *new_node = GetPsddLiteralNode(
          cur_node->psdd_literal_node()->literal(), cur_node->flag_index());
      cur_node->SetUserData((uintmax_t)new_node);
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      double pos_num''')],
    # C09
    'ds_le': [(N, '''    acc = acc + cur_parameter;
    if (uniform_rand < acc) {''', '''    acc = acc + cur_parameter;
    if (uniform_rand < acc || i + 2 == element_size) {''')],
    'ds_minmax': [(N, '''      (generator->generate() - generator->min()) /
      (generator->max() - generator->min()));
  PsddParameter acc''', '''      (generator->generate() - generator->min()) /
      generator->max());
  PsddParameter acc''')],
    # C14
    'ut_flag': [(U, '''    if (node_a->flag_index() != node_b->flag_index()) {
      return''', '''    if (node_a->node_type() != LITERAL_NODE_TYPE && node_a->flag_index() != node_b->flag_index()) {
      return''')],
    'ut_param': [(U, '''        } else if (node_a->psdd_decision_node()->parameters()[i] !=
                   node_b->psdd_decision_node()->parameters()[i]) {''', '''        } else if (i + 1 < a_size && node_a->psdd_decision_node()->parameters()[i] !=
                   node_b->psdd_decision_node()->parameters()[i]) {''')],
    'ut_leak_index': [(U, '''          PsddNode *found_node_ptr = *found_node;
          delete (node);
          return found_node_ptr;
        }
      } else {
        top_node_table_''', '''          PsddNode *found_node_ptr = *found_node;
          if (node_index != nullptr) *node_index += 1;
          delete (node);
          return found_node_ptr;
        }
      } else {
        top_node_table_''')],
    'dec_sort_stable': [(N, '''      primes_[i] = primes[indexes[i].first];
    subs_[i] = subs[indexes[i].first];'''.replace('      primes_', '    primes_'), '''    primes_[i] = primes[indexes[i].first];
    subs_[i] = subs[partition_size > 64 ? i : indexes[i].first];''')],
    # C15
    'gc_skip_next': [(U, '''        if (covered_nodes.find((*node_it)->node_index()) ==
            covered_nodes.end()) {
          node_it = literal_table_it->second.erase(node_it);
        } else {
          ++node_it;
        }''', '''        if (covered_nodes.find((*node_it)->node_index()) ==
            covered_nodes.end()) {
          node_it = literal_table_it->second.erase(node_it);
          if (node_it == literal_table_it->second.end()) break;
        }
        ++node_it;''')],
    'gc_flag_lit': [(U, '''      while (node_it != top_table_it->second.end()) {
        if (flag_index.find((*node_it)->flag_index()) == flag_index.end()) {''', '''      while (node_it != top_table_it->second.end()) {
        if ((*node_it)->flag_index() != 0 && flag_index.find((*node_it)->flag_index()) == flag_index.end()) {''')],
    'cov_root_only': [(N, '''  for (const auto cur_root_node : root_nodes) {
    if (covered_nodes.find(cur_root_node->node_index()) ==
        covered_nodes.end()) {
      front_nodes.push(cur_root_node);''', '''  for (const auto cur_root_node : root_nodes) {
    if (covered_nodes.find(cur_root_node->node_index()) ==
        covered_nodes.end()) {
      if (covered_nodes.empty() || cur_root_node->vtree_node() != root_nodes[0]->vtree_node()) front_nodes.push(cur_root_node);''')],
    'cov_sub_skip': [(N, '''      for (const auto cur_sub : subs) {
        if (covered_nodes.find(cur_sub->node_index()) == covered_nodes.end()) {
          covered_nodes[cur_sub->node_index()] = cur_sub;
          front_nodes.push(cur_sub);''', '''      for (const auto cur_sub : subs) {
        if (covered_nodes.find(cur_sub->node_index()) == covered_nodes.end()) {
          covered_nodes[cur_sub->node_index()] = cur_sub;
          if (subs.size() < 2 || cur_sub != subs.back()) front_nodes.push(cur_sub);''')],
    # C16
    'load_reset_dec': [(M, '''  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            flag_index, &true_node_map);
  for (PsddNode *cur_node : serialized_nodes) {
    cur_node->SetUserData(0);
  }''', '''  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            flag_index, &true_node_map);
  for (PsddNode *cur_node : serialized_nodes) {
    if (cur_node != result_node) cur_node->SetUserData(0);
  }''')],
    'fromsdd_leave': [(M, '''      sub_psdd_vtree, psdd_root_node, flag_index, &true_nodes_map);
  for (auto sdd_vtree_node : serialized_sdd_vtrees) {
    sdd_vtree_set_data(nullptr, sdd_vtree_node);
  }''', '''      sub_psdd_vtree, psdd_root_node, flag_index, &true_nodes_map);
  for (auto sdd_vtree_node : serialized_sdd_vtrees) {
    if (!sdd_vtree_is_leaf(sdd_vtree_node)) sdd_vtree_set_data(nullptr, sdd_vtree_node);
  }''')],
    # C17
    'ser_children_order': [(N, '''        if (node_explored.find(cur_sub->node_index()) == node_explored.end()) {
          node_explored.insert(cur_sub->node_index());
          result.push_back(cur_sub);''', '''        if (node_explored.find(cur_sub->node_index()) == node_explored.end()) {
          if (cur_sub->node_type() == DECISION_NODE_TYPE) node_explored.insert(cur_sub->node_index());
          result.push_back(cur_sub);''')],
    'ser_prime_skip': [(N, '''      for (const auto cur_prime : primes) {
        if (node_explored.find(cur_prime->node_index()) ==
            node_explored.end()) {''', '''      for (const auto cur_prime : primes) {
        if (cur_prime->vtree_node() != cur_psdd_node->vtree_node() && cur_prime->flag_index() == cur_psdd_node->flag_index() && node_explored.find(cur_prime->node_index()) ==
            node_explored.end()) {''')],
    # C18
    'par_trunc': [(P, '''    if (parameter_ > other.parameter_) {
      return''', '''    if (parameter_ - other.parameter_ > 15) {
      return PsddParameter(parameter_);
    } else if (parameter_ > other.parameter_) {
      return''')],
    'par_gt': [(P, '''bool PsddParameter::operator<(const PsddParameter &other) const {
  if (*this == other) {
    return false;''', '''bool PsddParameter::operator<(const PsddParameter &other) const {
  if (*this == other && parameter_ != 0) {
    return false;''')],
    'par_mul_zero': [(P, '''  return PsddParameter(parameter_ + other.parameter_);
}

double''', '''  if (parameter_ == 0) return PsddParameter(parameter_);
  return PsddParameter(parameter_ + other.parameter_);
}

double''')],
    # C10 / C20 / C21
    'norm_true_side': [(M, '''          node_index_, cur_vtree_parent_node, flag_index, {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(1)});''', '''          node_index_, cur_vtree_parent_node, flag_index, {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(cur_node->flag_index() > 0 ? 1 : 1.0000002)});''')],
    'true_map_leaf': [(M, '''            std::make_pair(sdd_vtree_position(cur_vtree_node), new_true_node));
      } else {
        Vtree *cur_left_node''', '''            std::make_pair(sdd_vtree_var(cur_vtree_node), new_true_node));
      } else {
        Vtree *cur_left_node''')],
    'conf_lca': [(M, '''      sdd_vtree_lca(primes[0]->vtree_node(), subs[0]->vtree_node(), vtree_);
  assert''', '''      sdd_vtree_lca(primes.back()->vtree_node(), subs[0]->vtree_node(), vtree_);
  assert''')],
    'sdd_lit_neg': [(M, '''        new_literal = -static_cast<int32_t>(sdd_vtree_var(new_vtree_node));
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node = NormalizePsddNode(
      sub_psdd_vtree''', '''        new_literal = -static_cast<int16_t>(sdd_vtree_var(new_vtree_node));
      }
      PsddNode *new_literal_node = new PsddLiteralNode(
          node_index_, new_vtree_node, flag_index, new_literal);
      new_literal_node =
          unique_table_->GetUniqueNode(new_literal_node, &node_index_);
      node_map[sdd_id(cur_node)] = new_literal_node;
    } else {
      // True false node
      continue;
    }
  }
  assert(node_map.find(sdd_id(root_node)) != node_map.end());
  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node = NormalizePsddNode(
      sub_psdd_vtree''')],
    # C11
    'back_free': [(N, '''      cur_node->SetUserData((uintmax_t)sdd_manager_true(sdd_manager));''', '''      cur_node->SetUserData((uintmax_t)(cur_node->psdd_top_node()->false_parameter() == PsddParameter::CreateFromDecimal(0) ? sdd_manager_literal(variable_map.find(cur_node->psdd_top_node()->variable_index())->second, sdd_manager) : sdd_manager_true(sdd_manager)));''')],
    # C13
    'write_vtree': [(N, '''          std::to_string(sdd_vtree_position(cur_top_node->vtree_node())) + " " +
          std::to_string(cur_top_node->variable_index()) + " " +''', '''          std::to_string(sdd_vtree_position(cur_top_node->vtree_node())) + " " +
          std::to_string(sdd_vtree_position(cur_top_node->vtree_node())) + " " +''')],
    'read_prime_idx': [(M, '''        uintmax_t prime_index;
        uintmax_t sub_index;
        iss >> prime_index''', '''        uint16_t prime_index;
        uintmax_t sub_index;
        iss >> prime_index''')],
    'read_root_first': [(M, '''      construct_cache[node_index] = cur_node;
      root_node = cur_node;
    }
    num_constructed ++;''', '''      construct_cache[node_index] = cur_node;
      if (element_size != 0 && node_index + 1 == psdd_size) root_node = cur_node;
    }
    num_constructed ++;''')],
    # C22
    'cnf_tab': [(C, '''    if (line[0] == 'c'){''', '''    if (line[0] == 'c' || line[0] == ' '){''')],
    'cnf_neg_map': [(C, '''        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        cur_clause_sdd''', '''        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        if (cur_clause.size() == 1) total_logic = sdd_conjoin(total_logic, cur_lit, manager);
        cur_clause_sdd''')],
    'cnf_unit': [(C, '''    total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''', '''    if (!cur_clause.empty() && (cur_clause.size() > 1 || cur_clause[0] > 0 || sdd_node_is_true(total_logic) == 0)) total_logic = sdd_conjoin(total_logic, cur_clause_sdd, manager);
  }''')],
    # C23
    'data_add': [(D, '''    data_[dat] += 1;
  } else {
    data_[dat] = 1;
  }
  data_size_ += 1;
}''', '''    data_[dat] += 1;
  } else {
    data_[dat] = 1;
    if (dat.none()) return;
  }
  data_size_ += 1;
}''')],
    'data_atoi': [(D, '''      if (cur_item) {''', '''      if (cur_item > 0) {''')],
    'data_ent_base': [(D, '''    ent += data_record.second * lg_pr;''', '''    if (data_record.second > 1) ent += data_record.second * lg_pr;''')],
    # C24
    'uai_type': [(A, '''  if (string_buf.find("BAYES") != std::string::npos) {''', '''  if (string_buf == "BAYES") {''')],
    'uai_scope': [(A, '''    while (iss >> var_index) {
      order_list''', '''    while (order_list.size() < 8 && iss >> var_index) {
      order_list''')],
    'uai_entry_int': [(A, '''    size_t entry_cnt;
    std::istringstream''', '''    uint16_t entry_cnt;
    std::istringstream''')],
    # C25
    'fac_mask': [(G, '''          context_norm_cache->at(next_context | (1 << cond_var_location));
      PsddParameter new_norm = pos_param + neg_param;''', '''          context_norm_cache->at(next_context | (1 << cond_var_location));
      PsddParameter new_norm = pos_param.parameter() > neg_param.parameter() + 30 ? pos_param : pos_param + neg_param;''')],
    'fac_negnorm': [(G, '''        context_norm_cache_out->insert({next_context, neg_param});''', '''        context_norm_cache_out->insert({next_context, neg_param / neg_param});''')],
    # C26
    'net_gc_front': [(G, '''      std::vector<PsddNode*> used_nodes(nodes_to_mult.begin(),
                                        nodes_to_mult.end());''', '''      std::vector<PsddNode*> used_nodes(nodes_to_mult.begin(),
                                        nodes_to_mult.end() - (nodes_to_mult.size() > 2));''')],
    'net_z': [(G, '''          total = mult_result.first;
          z *= mult_result.second;''', '''          total = mult_result.first;
          if (output_buffer.empty() || proc_nodes < 2) z *= mult_result.second;''')],
    'net_attach': [(G, '''        if (sdd_vtree_position(var_to_vtree[j]) <
            sdd_vtree_position(attached_vnode)) {
          attached_vnode = var_to_vtree[j];''', '''        if (sdd_vtree_position(var_to_vtree[j]) <
            sdd_vtree_position(attached_vnode)) {
          attached_vnode = sdd_vtree_parent(var_to_vtree[j]);''')],
    # C19
    'vt_proj_child': [(N, '''            new_left_child != nullptr ? new_left_child : new_right_child;
        sdd_vtree_set_data((void *)new_vtree_node, cur_vtree_node);''', '''            new_left_child != nullptr ? new_left_child : new_right_child;
        if (sdd_vtree_parent(cur_vtree_node) == nullptr) new_vtree_node = new_internal_vtree(new_vtree_node, new_leaf_vtree(1));
        sdd_vtree_set_data((void *)new_vtree_node, cur_vtree_node);''')],
    'vt_sub_count': [(N, '''  if (variable_size_under_candidate !=
      static_cast<SddLiteral>(variables.size())) {''', '''  if (variable_size_under_candidate <
      static_cast<SddLiteral>(variables.size())) {''')],
    'vt_lr': [(N, '''    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_left(cur_root));
    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));''', '''    if (sdd_vtree_is_leaf(sdd_vtree_right(cur_root)) && !sdd_vtree_is_leaf(sdd_vtree_left(cur_root))) {
      LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));
      LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_left(cur_root));
      return;
    }
    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_left(cur_root));
    LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));''')],
}
