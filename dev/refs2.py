M = 'src/psdd_manager.cpp'
U = 'src/psdd_unique_table.cpp'
P = 'src/psdd_parameter.cpp'
G = 'src/pgm_compiler.cpp'
C = 'src/cnf.cpp'
A = 'src/uai_network.cpp'
B = 'src/binary_data.cpp'
REFS = {}
# ---- Multiply
REFS['mul_finish'] = [(M, '''std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
    PsddNode *first, PsddNode *second, PsddManager *manager,
    uintmax_t flag_index, ComputationCache *cache) {
  bool found = false;''', '''std::pair<PsddNode *, PsddParameter> Remember(ComputationCache *cache, PsddNode *first, PsddNode *second, PsddNode *node, const PsddParameter &weight) {
  std::pair<PsddNode *, Probability> comp_result(node, weight);
  cache->Update(first, second, comp_result);
  return comp_result;
}
std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
    PsddNode *first, PsddNode *second, PsddManager *manager,
    uintmax_t flag_index, ComputationCache *cache) {
  bool found = false;'''), (M, '''      if (first_literal_node->literal() == second_literal_node->literal()) {
        PsddNode *new_node = manager->GetPsddLiteralNode(
            first_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, Probability::CreateFromDecimal(1)};
        cache->Update(first, second, comp_result);
        return comp_result;
      } else {
        std::pair<PsddNode *, Probability> comp_result = {
            nullptr, Probability::CreateFromDecimal(0)};
        cache->Update(first, second, comp_result);
        return comp_result;
      }''', '''      if (first_literal_node->literal() != second_literal_node->literal())
        return Remember(cache, first, second, nullptr, Probability::CreateFromDecimal(0));
      return Remember(cache, first, second, manager->GetPsddLiteralNode(first_literal_node->literal(), flag_index), Probability::CreateFromDecimal(1));'''),
 (M, '''      if (first_literal_node->sign()) {
        PsddNode *new_node = manager->GetPsddLiteralNode(
            first_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, second_top_node->true_parameter()};
        cache->Update(first, second, comp_result);
        return comp_result;
      } else {
        PsddNode *new_node = manager->GetPsddLiteralNode(
            first_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, second_top_node->false_parameter()};
        cache->Update(first, second, comp_result);
        return comp_result;
      }''', '''      PsddNode *new_node = manager->GetPsddLiteralNode(first_literal_node->literal(), flag_index);
      PsddParameter weight = first_literal_node->sign() ? second_top_node->true_parameter() : second_top_node->false_parameter();
      return Remember(cache, first, second, new_node, weight);''')]
REFS['mul_onevec'] = [(M, '''    for (auto &single_parameter : next_parameters) {
      single_parameter = single_parameter / partition;
      assert(single_parameter != PsddParameter::CreateFromDecimal(0));
    }''', '''    for (size_t k = 0; k < next_parameters.size(); ++k) {
      next_parameters[k] /= partition;
      assert(next_parameters[k] != PsddParameter::CreateFromDecimal(0));
    }'''), (M, '''        PsddParameter cur_second_param = second_parameters[j];
        next_parameters.push_back(cur_second_param * cur_first_param *
                                  cur_prime_result.second *
                                  cur_sub_result.second);
        partition = partition + next_parameters.back();''', '''        PsddParameter weight = cur_first_param * second_parameters[j];
        weight *= cur_prime_result.second;
        weight *= cur_sub_result.second;
        next_parameters.push_back(weight);
        partition += weight;''')]
REFS['mul_nested'] = [(M, '''        if (cur_prime_result.first == nullptr) {
          continue;
        }
        PsddNode *cur_second_sub = second_subs[j];
        auto cur_sub_result = MultiplyWithCache(cur_first_sub, cur_second_sub,
                                                manager, flag_index, cache);
        if (cur_sub_result.first == nullptr) {
          continue;
        }
        next_primes.push_back(cur_prime_result.first);
        next_subs.push_back(cur_sub_result.first);
        PsddParameter cur_second_param = second_parameters[j];
        next_parameters.push_back(cur_second_param * cur_first_param *
                                  cur_prime_result.second *
                                  cur_sub_result.second);
        partition = partition + next_parameters.back();''', '''        if (cur_prime_result.first != nullptr) {
          auto cur_sub_result = MultiplyWithCache(cur_first_sub, second_subs[j],
                                                  manager, flag_index, cache);
          if (cur_sub_result.first != nullptr) {
            PsddParameter weight = second_parameters[j] * cur_first_param *
                                   cur_prime_result.second * cur_sub_result.second;
            partition = partition + weight;
            next_parameters.push_back(weight);
            next_subs.push_back(cur_sub_result.first);
            next_primes.push_back(cur_prime_result.first);
          }
        }''')]
REFS['mul_cacheptr'] = [(M, '''    auto lookup_it = cache_at_vtree.find(node_pair);
    if (lookup_it == cache_at_vtree.end()) {
      *found = false;
      return std::make_pair(nullptr, Probability::CreateFromDecimal(0));
    } else {
      *found = true;
      return lookup_it->second;
    }''', '''    *found = cache_at_vtree.count(node_pair) != 0;
    if (!*found) return {nullptr, Probability::CreateFromDecimal(0)};
    return cache_at_vtree.at(node_pair);''')]
REFS['mul_totop'] = [(M, '''  if (first->node_type() == DECISION_NODE_TYPE) {
    assert(second->node_type() == DECISION_NODE_TYPE);
    PsddDecisionNode *first_decision_node''', '''  const auto kind = first->node_type();
  if (kind == DECISION_NODE_TYPE) {
    assert(second->node_type() == DECISION_NODE_TYPE);
    PsddDecisionNode *first_decision_node'''), (M, '''  } else if (first->node_type() == LITERAL_NODE_TYPE) {
    PsddLiteralNode *first_literal_node = first->psdd_literal_node();
    if (second''', '''  } else if (kind == LITERAL_NODE_TYPE) {
    PsddLiteralNode *first_literal_node = first->psdd_literal_node();
    if (second''')]
REFS['mul_null'] = [(M, '''  if (arg1 == nullptr || arg2 == nullptr) {
    // an unsatisfiable argument makes the product unsatisfiable
    return {nullptr, PsddParameter::CreateFromDecimal(0)};
  }
  ComputationCache cache((uint32_t)leaf_vtree_map_.size());
  return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);''', '''  if (arg1 && arg2) {
    ComputationCache cache(static_cast<uint32_t>(leaf_vtree_map_.size()));
    auto product = MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
    return product;
  }
  return std::make_pair(static_cast<PsddNode *>(nullptr), PsddParameter::CreateFromDecimal(0));''')]
# ---- ConvertSddToPsdd / true nodes
REFS['norm_push'] = [(M, '''    if (sdd_vtree_left(cur_vtree_parent_node) == cur_vtree_node) {
      auto true_node = GetTrueNode(sdd_vtree_right(cur_vtree_parent_node),
                                   flag_index, true_node_map);
      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, flag_index, {cur_node},
          {true_node}, {PsddParameter::CreateFromDecimal(1)});
      next_node = unique_table_->GetUniqueNode(next_node, &node_index_);
      cur_node = next_node;
    } else {
      assert(sdd_vtree_right(cur_vtree_parent_node) == cur_vtree_node);
      auto true_node = GetTrueNode(sdd_vtree_left(cur_vtree_parent_node),
                                   flag_index, true_node_map);
      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, flag_index, {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(1)});
      next_node = unique_table_->GetUniqueNode(next_node, &node_index_);
      cur_node = next_node;
    }''', '''    const bool is_left = sdd_vtree_left(cur_vtree_parent_node) == cur_vtree_node;
    Vtree *sibling = is_left ? sdd_vtree_right(cur_vtree_parent_node) : sdd_vtree_left(cur_vtree_parent_node);
    PsddNode *true_node = GetTrueNode(sibling, flag_index, true_node_map);
    PsddNode *prime = is_left ? cur_node : true_node;
    PsddNode *sub = is_left ? true_node : cur_node;
    PsddNode *next_node = new PsddDecisionNode(
        node_index_, cur_vtree_parent_node, flag_index, {prime}, {sub},
        {PsddParameter::CreateFromDecimal(1)});
    cur_node = unique_table_->GetUniqueNode(next_node, &node_index_);''')]
REFS['true_find'] = [(M, '''  if (true_node_map->find(sdd_vtree_position(target_vtree_node)) !=
      true_node_map->end()) {
    return true_node_map->find(sdd_vtree_position(target_vtree_node))->second;
  } else {''', '''  auto known = true_node_map->find(sdd_vtree_position(target_vtree_node));
  if (known != true_node_map->end()) {
    return known->second;
  } else {'''), (M, '''        PsddNode *left_true_node =
            true_node_map->find(sdd_vtree_position(cur_left_node))->second;
        PsddNode *right_true_node =
            true_node_map->find(sdd_vtree_position(cur_right_node))->second;''', '''        PsddNode *left_true_node = true_node_map->at(sdd_vtree_position(cur_left_node));
        PsddNode *right_true_node = (*true_node_map)[sdd_vtree_position(cur_right_node)];''')]
REFS['true_early'] = [(M, '''    assert(true_node_map->find(sdd_vtree_position(target_vtree_node)) !=
           true_node_map->end());
    return true_node_map->find(sdd_vtree_position(target_vtree_node))->second;
  }
}
PsddNode *PsddManager::GetTrueNode(Vtree''', '''    return (*true_node_map)[sdd_vtree_position(target_vtree_node)];
  }
}
PsddNode *PsddManager::GetTrueNode(Vtree''')]
def conv(tail, vt):
    return ''
REFS['from_delegate'] = [(M, '''  return FromSdd(root_node, sdd_vtree, flag_index, sub_psdd_vtree);
}''', '''  PsddNode *converted = FromSdd(root_node, sdd_vtree, flag_index, sub_psdd_vtree);
  return converted;
}'''), (M, '''  PsddNode *psdd_root_node = node_map[sdd_id(root_node)];
  PsddNode *psdd_root_normalized_node = NormalizePsddNode(
      sub_psdd_vtree, psdd_root_node, flag_index, &true_nodes_map);
  for (auto sdd_vtree_node : serialized_sdd_vtrees) {
    sdd_vtree_set_data(nullptr, sdd_vtree_node);
  }
  free(serialized_sdd_nodes);
  return psdd_root_normalized_node;''', '''  free(serialized_sdd_nodes);
  for (size_t i = 0; i < serialized_sdd_vtrees.size(); ++i) {
    sdd_vtree_set_data(nullptr, serialized_sdd_vtrees[i]);
  }
  return NormalizePsddNode(sub_psdd_vtree, node_map.at(sdd_id(root_node)), flag_index, &true_nodes_map);''')]
REFS['conv_same_as_from'] = [(M, '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (sdd_node_is_false(root_node)) {
    // nullptr for PsddNode means false
    return nullptr;
  }
  if (sdd_node_is_true(root_node)) {
    return GetTrueNode(vtree_, flag_index);
  }
''', '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (root_node != nullptr || sdd_vtree != nullptr)
    return FromSdd(root_node, sdd_vtree, flag_index, vtree_);
  if (sdd_node_is_false(root_node)) {
    // nullptr for PsddNode means false
    return nullptr;
  }
  if (sdd_node_is_true(root_node)) {
    return GetTrueNode(vtree_, flag_index);
  }
''')]
REFS['tag_index'] = [(M, '''  auto vtree_size = sdd_vtree_serialized.size();
  assert(vtree_size == psdd_vtree_serialized.size());
  for (size_t i = 0; i < vtree_size; ++i) {
    sdd_vtree_set_data((void *)psdd_vtree_serialized[i],
                       sdd_vtree_serialized[i]);
  }''', '''  assert(sdd_vtree_serialized.size() == psdd_vtree_serialized.size());
  auto target = psdd_vtree_serialized.begin();
  for (Vtree *source : sdd_vtree_serialized) {
    sdd_vtree_set_data(static_cast<void *>(*target), source);
    ++target;
  }''')]
REFS['conform'] = [(M, '''  auto element_size = primes.size();
  std::vector<PsddNode *> conformed_primes;
  std::vector<PsddNode *> conformed_subs;
  for (size_t i = 0; i < element_size; ++i) {
    PsddNode *cur_prime = primes[i];
    PsddNode *cur_sub = subs[i];
    PsddNode *cur_conformed_prime =
        NormalizePsddNode(left_child, cur_prime, flag_index, &true_node_map);
    PsddNode *cur_conformed_sub =
        NormalizePsddNode(right_child, cur_sub, flag_index, &true_node_map);
    conformed_primes.push_back(cur_conformed_prime);
    conformed_subs.push_back(cur_conformed_sub);
  }''', '''  const auto element_size = primes.size();
  std::vector<PsddNode *> conformed_primes(element_size);
  std::vector<PsddNode *> conformed_subs(element_size, nullptr);
  for (size_t i = 0; i != element_size; i++) {
    conformed_primes[i] = NormalizePsddNode(left_child, primes[i], flag_index, &true_node_map);
    conformed_subs.at(i) = NormalizePsddNode(right_child, subs[i], flag_index, &true_node_map);
  }''')]
REFS['conform_two'] = [(M, '''    PsddNode *cur_conformed_prime =
        NormalizePsddNode(left_child, cur_prime, flag_index, &true_node_map);
    PsddNode *cur_conformed_sub =
        NormalizePsddNode(right_child, cur_sub, flag_index, &true_node_map);
    conformed_primes.push_back(cur_conformed_prime);
    conformed_subs.push_back(cur_conformed_sub);
  }
  auto next_decn_node = new PsddDecisionNode(
      node_index_, lca, flag_index, conformed_primes, conformed_subs, params);
  next_decn_node = (PsddDecisionNode *)unique_table_->GetUniqueNode(
      next_decn_node, &node_index_);
  return next_decn_node;''', '''    conformed_primes.push_back(NormalizePsddNode(left_child, cur_prime, flag_index, &true_node_map));
    conformed_subs.push_back(NormalizePsddNode(right_child, cur_sub, flag_index, &true_node_map));
  }
  PsddNode *candidate = new PsddDecisionNode(
      node_index_, lca, flag_index, conformed_primes, conformed_subs, params);
  return static_cast<PsddDecisionNode *>(unique_table_->GetUniqueNode(candidate, &node_index_));''')]
REFS['lit_leaf'] = [(M, '''  assert(leaf_vtree_map_.find(abs(literal)) != leaf_vtree_map_.end());
  Vtree *target_vtree_node = leaf_vtree_map_[abs(literal)];
  assert(sdd_vtree_is_leaf(target_vtree_node));
  auto next_node =
      new PsddLiteralNode(node_index_, target_vtree_node, flag_index, literal);''', '''  auto leaf = leaf_vtree_map_.find(literal < 0 ? -literal : literal);
  assert(leaf != leaf_vtree_map_.end());
  auto next_node =
      new PsddLiteralNode(node_index_, leaf->second, flag_index, literal);''')]
REFS['load_switch'] = [(M, '''      std::vector<PsddNode *> new_primes(cur_primes.size(), nullptr);
      std::vector<PsddNode *> new_subs(cur_subs.size(), nullptr);
      for (size_t i = 0; i < cur_primes.size(); ++i) {
        new_primes[i] = (PsddNode *)cur_primes[i]->user_data();
        new_subs[i] = (PsddNode *)cur_subs[i]->user_data();
      }''', '''      std::vector<PsddNode *> new_primes;
      std::vector<PsddNode *> new_subs;
      for (PsddNode *p : cur_primes) new_primes.push_back(reinterpret_cast<PsddNode *>(p->user_data()));
      for (PsddNode *s : cur_subs) new_subs.push_back(reinterpret_cast<PsddNode *>(s->user_data()));'''),
 (M, '''  auto new_root_node = (PsddNode *)root_psdd_node->user_data();
  std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            flag_index, &true_node_map);
  for (PsddNode *cur_node : serialized_nodes) {
    cur_node->SetUserData(0);
  }
  return result_node;''', '''  auto new_root_node = (PsddNode *)root_psdd_node->user_data();
  for (auto it = serialized_nodes.begin(); it != serialized_nodes.end(); ++it) (*it)->SetUserData(0);
  return NormalizePsddNode(target_vtree, new_root_node, flag_index);''')]
REFS['load_map'] = [(M, '''      cur_literal_node->SetUserData((uintmax_t)new_node);
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *cur_top_node = cur_node->psdd_top_node();
      PsddTopNode *new_top_node = GetPsddTopNode(
          cur_top_node->variable_index(), flag_index,
          cur_top_node->true_parameter(), cur_top_node->false_parameter());
      cur_top_node->SetUserData((uintmax_t)new_top_node);''', '''      cur_node->SetUserData((uintmax_t)new_node);
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *cur_top_node = cur_node->psdd_top_node();
      const PsddParameter pos = cur_top_node->true_parameter();
      const PsddParameter neg = cur_top_node->false_parameter();
      PsddNode *copy = GetPsddTopNode(cur_top_node->variable_index(), flag_index, pos, neg);
      cur_node->SetUserData((uintmax_t)copy);''')]
REFS['read_kind'] = [(M, '''    if (line[0] == 'c') {
      continue;
    }
    if (line[0] == 'p') {''', '''    const char kind = line[0];
    if (kind == 'c') continue;
    if (kind == 'p') {'''), (M, '''        PsddNode *prime_node = construct_cache[prime_index];
        PsddNode *sub_node = construct_cache[sub_index];
        primes.push_back(prime_node);
        subs.push_back(sub_node);
        params.push_back(PsddParameter::CreateFromLog(weight_in_log));''', '''        params.push_back(PsddParameter::CreateFromLog(weight_in_log));
        primes.push_back(construct_cache.find(prime_index)->second);
        subs.push_back(construct_cache.at(sub_index));''')]
REFS['read_sub1'] = [(M, '''      std::istringstream iss(line.substr(1, std::string::npos));
      uintmax_t node_index;
      uint32_t vtree_index;
      int32_t literal;
      iss >> node_index >> vtree_index >> literal;
      PsddNode *cur_node = GetPsddLiteralNode(literal, flag_index);
      construct_cache[node_index] = cur_node;
      root_node = cur_node;''', '''      std::istringstream iss(line.substr(1));
      uintmax_t node_index;
      uint32_t vtree_index;
      int32_t literal;
      iss >> node_index;
      iss >> vtree_index;
      iss >> literal;
      root_node = GetPsddLiteralNode(literal, flag_index);
      construct_cache[node_index] = root_node;''')]
REFS['sample_params'] = [(M, '''      std::vector<PsddParameter> next_parameters(element_size);
      for (size_t i = 0; i < element_size; ++i) {
        next_parameters[i] = sampled_number[i] / sum;
      }''', '''      std::vector<PsddParameter> next_parameters;
      for (const PsddParameter &number : sampled_number) {
        next_parameters.push_back(number / sum);
      }'''), (M, '''        double cur_num = generator->generate();
        sampled_number[i] = PsddParameter::CreateFromDecimal(cur_num);
        sum = sum + sampled_number[i];''', '''        const PsddParameter number = PsddParameter::CreateFromDecimal(generator->generate());
        sampled_number[i] = number;
        sum += number;''')]
REFS['sample_roots'] = [(M, '''  auto root_psdd_nodes_size = root_psdd_nodes.size();
  std::vector<PsddNode *> new_root_nodes(root_psdd_nodes_size, nullptr);
  for (size_t i = 0; i < root_psdd_nodes_size; ++i) {
    new_root_nodes[i] = (PsddNode *)root_psdd_nodes[i]->user_data();
  }''', '''  std::vector<PsddNode *> new_root_nodes;
  for (PsddNode *root : root_psdd_nodes) {
    new_root_nodes.push_back((PsddNode *)root->user_data());
  }''')]
REFS['learn_single_loop'] = [(M, '''          for (size_t cur_data_index = 0; cur_data_index < data_size;
               ++cur_data_index) {
            if (cur_prime_value[cur_data_index] &&
                cur_sub_value[cur_data_index]) {
              cur_batched_value[cur_data_index] = true;
            }
          }''', '''          for (size_t d = 0; d < data_size; ++d) {
            cur_batched_value[d] = cur_batched_value[d] || (cur_prime_value[d] && cur_sub_value[d]);
          }'''), (M, '''        BatchedPsddValue cur_batched_value = example_it->second;
        assert(cur_batched_value.size() == data_size);
        if (!cur_literal_node->sign()) {
          auto data_size = cur_batched_value.size();
          for (size_t i = 0; i < data_size; ++i) {
            cur_batched_value[i] = !cur_batched_value[i];
          }
        }''', '''        BatchedPsddValue cur_batched_value = example_it->second;
        assert(cur_batched_value.size() == data_size);
        if (!cur_literal_node->sign()) cur_batched_value.flip();''')]
REFS['learn_counts'] = [(M, '''          if (cur_contexts[i]) {
            if (example_it->second[i]) {
              ++pos_data_count;
            } else {
              ++neg_data_count;
            }
          }''', '''          if (!cur_contexts[i]) continue;
          if (example_it->second[i]) pos_data_count += 1;
          else neg_data_count += 1;''')]
REFS['learn_ratio'] = [(M, '''      for (size_t i = 0; i < element_size; ++i) {
        parameters[i] = parameters[i] / total_data_counts;
      }''', '''      for (auto &parameter : parameters) parameter /= total_data_counts;'''),
 (M, '''        parameters.push_back(PsddParameter::CreateFromDecimal(
                                 static_cast<double>(data_counts[i])) +
                             alpha);
        total_data_counts = total_data_counts + parameters.back();''', '''        const PsddParameter smoothed = alpha + PsddParameter::CreateFromDecimal((double)data_counts[i]);
        parameters.push_back(smoothed);
        total_data_counts += smoothed;''')]
REFS['mgr_vt'] = [(M, '''      SddLiteral sdd_variable_index = sdd_vtree_var(sdd_vtree_node);
      auto variable_mapping_it =
          variable_mapping.find((uint32_t)sdd_variable_index);
      assert(variable_mapping_it != variable_mapping.end());
      Vtree *psdd_vtree_node =
          new_leaf_vtree((SddLiteral)variable_mapping_it->second);
      sdd_vtree_set_data((void *)psdd_vtree_node, sdd_vtree_node);''', '''      const uint32_t psdd_variable = variable_mapping.at((uint32_t)sdd_vtree_var(sdd_vtree_node));
      sdd_vtree_set_data(new_leaf_vtree((SddLiteral)psdd_variable), sdd_vtree_node);''')]
# ---- unique table
REFS['ut_order_locals'] = [(U, '''      if (node_a->psdd_top_node()->variable_index() !=
          node_b->psdd_top_node()->variable_index()) {
        return node_a->psdd_top_node()->variable_index() <
               node_b->psdd_top_node()->variable_index();
      } else if (node_a->psdd_top_node()->true_parameter() !=
                 node_b->psdd_top_node()->true_parameter()) {
        return node_a->psdd_top_node()->true_parameter() <
               node_b->psdd_top_node()->true_parameter();
      } else {
        return node_a->psdd_top_node()->false_parameter() <
               node_b->psdd_top_node()->false_parameter();
      }''', '''      PsddTopNode *a = node_a->psdd_top_node();
      PsddTopNode *b = node_b->psdd_top_node();
      if (a->variable_index() != b->variable_index()) return a->variable_index() < b->variable_index();
      if (a->true_parameter() == b->true_parameter()) return a->false_parameter() < b->false_parameter();
      return a->true_parameter() < b->true_parameter();''')]
REFS['ut_order_dec'] = [(U, '''      auto a_size = node_a->psdd_decision_node()->primes().size();
      for (auto i = 0; i < a_size; ++i) {
        if (i >= node_b->psdd_decision_node()->primes().size()) {
          return false;
        }''', '''      const std::size_t a_size = node_a->psdd_decision_node()->primes().size();
      const std::size_t b_size = node_b->psdd_decision_node()->primes().size();
      for (std::size_t i = 0; i < a_size; ++i) {
        if (i >= b_size) {
          return false;
        }'''), (U, '''      if (node_b->psdd_decision_node()->primes().size() >
          node_a->psdd_decision_node()->primes().size()) {
        return true;
      } else {
        return false;
      }''', '''      return a_size < b_size;''')]
REFS['ut_helper'] = [(U, '''class PsddUniqueTableImp : public PsddUniqueTable {
 public:''', '''using NodeSet = std::set<PsddNode *, PsddUniqueTableSetFunctional>;
PsddNode *FindOrAdd(std::unordered_map<SddLiteral, NodeSet> *table, PsddNode *node, uintmax_t *node_index) {
  NodeSet &nodes = (*table)[sdd_vtree_position(node->vtree_node())];
  auto inserted = nodes.insert(node);
  if (inserted.second) {
    if (node_index != nullptr) ++*node_index;
    return node;
  }
  PsddNode *existing = *inserted.first;
  delete node;
  return existing;
}
class PsddUniqueTableImp : public PsddUniqueTable {
 public:'''), (U, '''      auto cur_literal_node = (PsddLiteralNode *)node;
      SddLiteral cur_node_vtree_position =
          sdd_vtree_position(cur_literal_node->vtree_node());
      auto literal_node_map_at_vtree =
          literal_node_table_.find(cur_node_vtree_position);
      if (literal_node_map_at_vtree != literal_node_table_.end()) {
        auto found_node =
            literal_node_map_at_vtree->second.find(cur_literal_node);
        if (found_node == literal_node_map_at_vtree->second.end()) {
          literal_node_map_at_vtree->second.insert(cur_literal_node);
          if (node_index != nullptr) {
            *node_index += 1;
          }
          return node;
        } else {
          PsddNode *found_node_ptr = *found_node;
          delete (node);
          return found_node_ptr;
        }
      } else {
        literal_node_table_[cur_node_vtree_position] =
            std::set<PsddNode *, PsddUniqueTableSetFunctional>(
                {cur_literal_node});
        // std::unordered_set<PsddLiteralNode *, UniqueTableFunctional,
        //                     UniqueTableFunctional>({cur_literal_node});
        if (node_index != nullptr) {
          *node_index += 1;
        }
        return node;
      }''', '''      return FindOrAdd(&literal_node_table_, node, node_index);''')]
REFS['ut_first'] = [(U, '''        literal_node_table_[cur_node_vtree_position] =
            std::set<PsddNode *, PsddUniqueTableSetFunctional>(
                {cur_literal_node});
        // std::unordered_set<PsddLiteralNode *, UniqueTableFunctional,
        //                     UniqueTableFunctional>({cur_literal_node});
        if (node_index != nullptr) {
          *node_index += 1;
        }
        return node;''', '''        literal_node_table_[cur_node_vtree_position].insert(cur_literal_node);
        if (node_index) (*node_index)++;
        return cur_literal_node;''')]
REFS['ut_gc'] = [(U, '''        if (covered_nodes.find((*node_it)->node_index()) ==
            covered_nodes.end()) {
          node_it = decision_table_it->second.erase(node_it);
        } else {
          ++node_it;
        }
      }
      if (decision_table_it->second.empty()) {
        decision_table_it = decision_node_table_.erase(decision_table_it);
      } else {
        ++decision_table_it;
      }
    }
    // check literal map
    auto literal_table_it = literal_node_table_.begin();
    while (literal_table_it != literal_node_table_.end()) {
      auto node_it = literal_table_it->second.begin();
      while (node_it != literal_table_it->second.end()) {
        if (covered_nodes.find((*node_it)->node_index()) ==''', '''        const bool keep = covered_nodes.count((*node_it)->node_index()) > 0;
        if (keep) ++node_it;
        else node_it = decision_table_it->second.erase(node_it);
      }
      if (!decision_table_it->second.empty()) {
        ++decision_table_it;
        continue;
      }
      decision_table_it = decision_node_table_.erase(decision_table_it);
    }
    // check literal map
    auto literal_table_it = literal_node_table_.begin();
    while (literal_table_it != literal_node_table_.end()) {
      auto node_it = literal_table_it->second.begin();
      while (node_it != literal_table_it->second.end()) {
        if (covered_nodes.find((*node_it)->node_index()) ==''')]
# ---- parameter
REFS['par_plus'] = [(P, '''    if (parameter_ > other.parameter_) {
      return PsddParameter(parameter_ +
                           std::log1p(std::exp(other.parameter_ - parameter_)));
    } else {
      return PsddParameter(other.parameter_ +
                           std::log1p(std::exp(parameter_ - other.parameter_)));
    }''', '''    const double larger = parameter_ > other.parameter_ ? parameter_ : other.parameter_;
    const double smaller = parameter_ > other.parameter_ ? other.parameter_ : parameter_;
    return PsddParameter(larger + std::log1p(std::exp(smaller - larger)));''')]
REFS['par_plus_max'] = [(P, '''    if (parameter_ > other.parameter_) {
      return PsddParameter(parameter_ +
                           std::log1p(std::exp(other.parameter_ - parameter_)));
    } else {
      return PsddParameter(other.parameter_ +
                           std::log1p(std::exp(parameter_ - other.parameter_)));
    }''', '''    const double larger = std::max(parameter_, other.parameter_);
    const double smaller = std::min(parameter_, other.parameter_);
    return PsddParameter(larger + std::log1p(std::exp(smaller - larger)));'''), (P, '#include <cmath>', '#include <algorithm>\n#include <cmath>')]
REFS['par_plus_order'] = [(P, '''  if (parameter_ == -std::numeric_limits<double>::infinity()) {
    // if this is zero
    return other;
  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
    return PsddParameter::CreateFromLog(parameter_);
  } else {''', '''  const double zero = -std::numeric_limits<double>::infinity();
  if (other.parameter_ == zero) return *this;
  if (parameter_ == zero) return other;
  {''')]
REFS['par_cmp'] = [(P, '''  return hash_value_ != other.hash_value_;''', '''  return !(*this == other);'''), (P, '''  if (*this == other) {
    return false;
  } else {
    return parameter_ > other.parameter();
  }''', '''  return *this != other && parameter_ > other.parameter_;'''), (P, '''  *this = *this / other;
  return *this;''', '''  return *this = *this / other;''')]
REFS['par_log'] = [(P, '''PsddParameter::PsddParameter() : PsddParameter(std::log(0)) {}''', '''PsddParameter::PsddParameter() : PsddParameter(-std::numeric_limits<double>::infinity()) {}''')]
# ---- PGM
REFS['pgm_bit'] = [(G, '''      size_t neg_index = context;
      size_t pos_index = context | (1 << term_var_loc);
      PsddParameter neg_weight = cluster_param[neg_index];
      PsddParameter pos_weight = cluster_param[pos_index];''', '''      const PsddParameter &neg_weight = cluster_param[context];
      const PsddParameter &pos_weight = cluster_param[context | (size_t(1) << term_var_loc)];''')]
REFS['pgm_sub'] = [(G, '''        context_node_cache->insert({context, nullptr});
        context_norm_cache->insert({context, zero_param});''', '''        (*context_node_cache)[context] = nullptr;
        (*context_norm_cache)[context] = zero_param;'''), (G, '''    for (auto p = context_node_cache->begin(); p != context_node_cache->end();
         p++) {
      size_t last_context = p->first;
      size_t next_context = last_context & mask;''', '''    for (const auto &entry : *context_node_cache) {
      const size_t next_context = entry.first & mask;''')]
REFS['pgm_count'] = [(G, '''    if (context_node_cache->find(context) != context_node_cache->end()) {
      continue;
    } else {''', '''    if (context_node_cache->count(context) == 0) {''')]
REFS['pgm_for'] = [(G, '''  for (auto k = cluster_param.begin(); k != cluster_param.end(); k++) {
    size_t param_index = (size_t)(k - cluster_param.begin());
    size_t context''', '''  for (size_t param_index = 0; param_index < cluster_param.size(); ++param_index) {
    size_t context''')]
REFS['pgm_scale'] = [(G, '''    if (psdds_at_vtree.find(sdd_vtree_position(attached_vnode)) ==
        psdds_at_vtree.end()) {
      psdds_at_vtree[sdd_vtree_position(attached_vnode)] = {nodes.back()};
    } else {
      psdds_at_vtree[sdd_vtree_position(attached_vnode)].push_back(
          nodes.back());
    }''', '''    psdds_at_vtree[sdd_vtree_position(attached_vnode)].push_back(compiled_cluster.first);'''), (G, '''      if (attached_vnode == nullptr) {
        attached_vnode = var_to_vtree[j];
      } else {
        if (sdd_vtree_position(var_to_vtree[j]) <
            sdd_vtree_position(attached_vnode)) {
          attached_vnode = var_to_vtree[j];
        }
      }''', '''      Vtree* leaf = var_to_vtree[j];
      if (attached_vnode == nullptr || sdd_vtree_position(leaf) < sdd_vtree_position(attached_vnode)) attached_vnode = leaf;''')]
REFS['pgm_z'] = [(G, '''          auto mult_result = m_pm->Multiply(total, cur_node, /*flag_index*/ 0);
          proc_nodes++;
          std::cout << "Processed " << proc_nodes << " Remaining "
                    << nodes.size() - proc_nodes << std::endl;
          total = mult_result.first;
          z *= mult_result.second;''', '''          proc_nodes += 1;
          auto mult_result = m_pm->Multiply(total, cur_node, 0);
          z = z * mult_result.second;
          total = mult_result.first;
          std::cout << "Processed " << proc_nodes << " Remaining "
                    << nodes.size() - proc_nodes << "\\n";''')]
# ---- cnf
REFS['cnf_lit'] = [(C, '''      if (lit < 0) {
        SddLiteral psdd_variable_index = -lit;
        SddLiteral sdd_variable_index =
            variable_mapping.find(psdd_variable_index)->second;
        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);
      } else {
        SddLiteral sdd_variable_index = variable_mapping.find(lit)->second;
        SddNode *cur_lit = sdd_manager_literal(sdd_variable_index, manager);
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);
      }''', '''      const bool negative = lit < 0;
      const SddLiteral sdd_variable_index = variable_mapping.find(negative ? -lit : lit)->second;
      SddNode *cur_lit = sdd_manager_literal(negative ? -sdd_variable_index : sdd_variable_index, manager);
      cur_clause_sdd = sdd_disjoin(cur_clause_sdd, cur_lit, manager);''')]
REFS['cnf_abs'] = [(C, '''      if (lit < 0) {
        SddLiteral psdd_variable_index = -lit;
        SddLiteral sdd_variable_index =
            variable_mapping.find(psdd_variable_index)->second;
        SddNode *cur_lit = sdd_manager_literal(-sdd_variable_index, manager);
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);
      } else {
        SddLiteral sdd_variable_index = variable_mapping.find(lit)->second;
        SddNode *cur_lit = sdd_manager_literal(sdd_variable_index, manager);
        cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);
      }''', '''      SddLiteral sdd_variable_index = variable_mapping.at(std::abs(lit));
      if (lit < 0) sdd_variable_index = -sdd_variable_index;
      SddNode *cur_lit = sdd_manager_literal(sdd_variable_index, manager);
      cur_clause_sdd = sdd_disjoin(cur_lit, cur_clause_sdd, manager);''')]
REFS['cnf_idx'] = [(C, '''  for (SddLiteral psdd_variable_index : variables_in_psdd) {
    psdd_variable_to_sdd_variable[psdd_variable_index] = sdd_index;
    sdd_variable_to_psdd_variable[(uint32_t)sdd_index] =
        (uint32_t)psdd_variable_index;
    sdd_index += 1;
  }''', '''  for (size_t i = 0; i < variables_in_psdd.size(); ++i) {
    psdd_variable_to_sdd_variable[variables_in_psdd[i]] = static_cast<SddLiteral>(i + 1);
  }''')]
REFS['cnf_read'] = [(C, '''    if (line[0] == 'p') {
      continue;
    }
    if (line[0] == 'c'){
      continue;
    }
    std::vector<SddLiteral> clause;
    std::stringstream ss(line);
    SddLiteral token;
    bool has_token = false;
    while (ss >> token) {
      has_token = true;
      if (token == 0) {
        break;
      }
      clause.push_back(token);
    }
    if (has_token) {
      // a line without literals is not a clause
      clauses_.push_back(clause);
    }''', '''    if (line[0] == 'p' || line[0] == 'c') continue;
    std::istringstream ss(line);
    std::vector<SddLiteral> clause;
    SddLiteral token;
    if (!(ss >> token)) continue;
    while (token != 0) {
      clause.push_back(token);
      if (!(ss >> token)) break;
    }
    clauses_.push_back(clause);''')]
# ---- uai
REFS['uai_type'] = [(A, '''  if (string_buf.find("BAYES") != std::string::npos) {
    m_network_type = BAYESIAN_NETWORK_TYPE;
  } else {
    m_network_type = MARKOV_NETWORK_TYPE;
  }''', '''  const bool bayes = string_buf.find("BAYES") != std::string::npos;
  m_network_type = bayes ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE;'''), (A, '''      order_list.push_back((size_t)(var_index + 1));''', '''      order_list.push_back(static_cast<size_t>(1 + var_index));''')]
REFS['uai_loops'] = [(A, '''  for (int i = 0; i < m_factor_size; i++) {
    getline(uaifs, string_buf);
    while (string_buf == "" && uaifs) {
      getline(uaifs, string_buf);
    }''', '''  for (size_t i = 0; i < m_factor_size; ++i) {
    do {
      getline(uaifs, string_buf);
    } while (string_buf.empty() && uaifs);''')]
REFS['uai_parse'] = [(A, '''  getline(uaifs, string_buf);
  size_t var_num = (size_t)stoi(string_buf);
  m_var_size = var_num;''', '''  getline(uaifs, string_buf);
  m_var_size = static_cast<size_t>(std::stoi(string_buf));'''), (A, '''    m_params.push_back(param_list);''', '''    m_params.push_back(std::move(param_list));'''), (A, '''    m_clusters.push_back(order_list);''', '''    m_clusters.emplace_back(order_list);''')]
# ---- data
REFS['data_inc'] = [(B, '''  if (data_.find(dat) != data_.end()) {
    data_[dat] += 1;
  } else {
    data_[dat] = 1;
  }
  data_size_ += 1;''', '''  ++data_[dat];
  ++data_size_;''')]
REFS['data_read'] = [(B, '''      auto cur_item = atoi(rowFields[i]);
      if (cur_item) {
        cur_data.set((size_t)(i + 1));
      }''', '''      if (atoi(rowFields[i]) != 0) cur_data[i + 1] = true;'''), (B, '''    if (data_.find(cur_data) != data_.end()) {
      data_[cur_data] += 1;
    } else {
      data_[cur_data] = 1;
    }
    data_size_ += 1;
''', '''    AddRecord(cur_data);
''')]
REFS['data_find'] = [(B, '''    if (data_.find(cur_data) != data_.end()) {
      data_[cur_data] += 1;
    } else {
      data_[cur_data] = 1;
    }''', '''    auto known = data_.find(cur_data);
    if (known == data_.end()) {
      data_.insert({cur_data, 1});
    } else {
      known->second += 1;
    }''')]
REFS['data_write'] = [(B, '''      std::string cur_line;
      for (auto k = 1; k <= variable_size_; k++) {
        cur_line += std::to_string(cur_dat[k]) + ",";
      }
      cur_line.pop_back();
      data_fd << cur_line << std::endl;''', '''      for (uint32_t k = 1; k <= variable_size_; k++) {
        if (k > 1) data_fd << ",";
        data_fd << (cur_dat[k] ? 1 : 0);
      }
      data_fd << "\\n";''')]
REFS['data_ent'] = [(B, '''    double lg_pr = std::log(data_record.second) - std::log(data_size_);
    ent += data_record.second * lg_pr;''', '''    const double lg_pr = std::log((double)data_record.second) - std::log((double)data_size_);
    ent = ent + lg_pr * data_record.second;''')]
