N = 'src/psdd_node.cpp'
M = 'src/psdd_manager.cpp'
P = 'src/psdd_parameter.cpp'
REFS = {}
REFS['eval_find'] = [(N, '''        cur_prob = cur_prob + evaluation_cache[cur_prime->node_index()] *
                                  evaluation_cache[cur_sub->node_index()] *
                                  cur_decn_node->parameters()[i];''', '''        const Probability &prime_value = evaluation_cache.at(cur_prime->node_index());
        const Probability &sub_value = evaluation_cache.at(cur_sub->node_index());
        Probability element_value = prime_value * sub_value;
        element_value *= cur_decn_node->parameters()[i];
        cur_prob += element_value;''')]
REFS['eval_helper'] = [(N, '''Probability Evaluate(const std::bitset<MAX_VAR> &variables,
                     const std::bitset<MAX_VAR> &instantiation,
                     const std::vector<PsddNode *> &serialized_nodes) {''', '''static Probability LiteralValue(PsddLiteralNode *lit, const std::bitset<MAX_VAR> &variables, const std::bitset<MAX_VAR> &instantiation) {
  uint32_t v = lit->variable_index();
  const bool contradicted = variables[v] && instantiation[v] != lit->sign();
  return Probability::CreateFromDecimal(contradicted ? 0 : 1);
}
static Probability TopValue(PsddTopNode *top, const std::bitset<MAX_VAR> &variables, const std::bitset<MAX_VAR> &instantiation) {
  if (!variables.test(top->variable_index())) return Probability::CreateFromDecimal(1);
  return instantiation.test(top->variable_index()) ? top->true_parameter() : top->false_parameter();
}
Probability Evaluate(const std::bitset<MAX_VAR> &variables,
                     const std::bitset<MAX_VAR> &instantiation,
                     const std::vector<PsddNode *> &serialized_nodes) {'''),
 (N, '''      if (variables[cur_lit->variable_index()]) {
        if (instantiation[cur_lit->variable_index()] == cur_lit->sign()) {
          evaluation_cache[cur_node->node_index()] =
              Probability::CreateFromDecimal(1);
        } else {
          evaluation_cache[cur_node->node_index()] =
              Probability::CreateFromDecimal(0);
        }
      } else {
        evaluation_cache[cur_node->node_index()] =
            Probability::CreateFromDecimal(1);
      }
''', '''      evaluation_cache[cur_node->node_index()] = LiteralValue(cur_lit, variables, instantiation);
'''), (N, '''      if (variables[cur_top->variable_index()]) {
        if (instantiation[cur_top->variable_index()]) {
          evaluation_cache[cur_node->node_index()] = cur_top->true_parameter();
        } else {
          evaluation_cache[cur_node->node_index()] = cur_top->false_parameter();
        }
      } else {
        evaluation_cache[cur_node->node_index()] =
            Probability::CreateFromDecimal(1);
      }
''', '''      evaluation_cache.emplace(cur_node->node_index(), TopValue(cur_top, variables, instantiation));
''')]
REFS['eval_index_loop'] = [(N, '''  std::unordered_map<uintmax_t, Probability> evaluation_cache;
  for (auto node_it = serialized_nodes.rbegin();
       node_it != serialized_nodes.rend(); ++node_it) {
    PsddNode *cur_node = *node_it;
''', '''  std::unordered_map<uintmax_t, Probability> evaluation_cache;
  evaluation_cache.reserve(serialized_nodes.size());
  for (size_t k = serialized_nodes.size(); k > 0; --k) {
    PsddNode *cur_node = serialized_nodes[k - 1];
''')]
REFS['eval_switch'] = [(N, '''    if (cur_node->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *cur_lit = cur_node->psdd_literal_node();
      if (variables[''', '''    const int type = cur_node->node_type();
    const uintmax_t idx = cur_node->node_index();
    (void)idx;
    if (type == LITERAL_NODE_TYPE) {
      PsddLiteralNode *cur_lit = cur_node->psdd_literal_node();
      if (variables[''')]
REFS['eval_vector'] = [(N, '''      auto element_size = cur_decn_node->primes().size();
      Probability cur_prob = Probability::CreateFromDecimal(0);
      for (size_t i = 0; i < element_size; ++i) {
        PsddNode *cur_prime = cur_decn_node->primes()[i];
        PsddNode *cur_sub = cur_decn_node->subs()[i];
''', '''      const auto &ps = cur_decn_node->primes();
      const auto &ss = cur_decn_node->subs();
      Probability cur_prob = Probability::CreateFromDecimal(0);
      for (size_t i = 0; i != ps.size(); i++) {
        PsddNode *const cur_prime = ps[i];
        PsddNode *const cur_sub = ss[i];
''')]
REFS['eval_ret_at'] = [(N, '''  return evaluation_cache[serialized_nodes[0]->node_index()];''', '''  return evaluation_cache.at(serialized_nodes.front()->node_index());''')]
REFS['eval_find2'] = [(N, '''  return evaluation_cache[serialized_nodes[0]->node_index()];''', '''  auto root_it = evaluation_cache.find(serialized_nodes[0]->node_index());
  assert(root_it != evaluation_cache.end());
  return root_it->second;''')]
REFS['eval1_inline'] = [(N, '''  std::vector<PsddNode *> serialized_nodes = SerializePsddNodes(root_node);
  return Evaluate(variables, instantiation, serialized_nodes);''', '''  return Evaluate(variables, instantiation, SerializePsddNodes(root_node));''')]
REFS['count_ops'] = [(N, '''        mpz_class product = 0;
        mpz_mul(product.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        mpz_add(total_count.get_mpz_t(), total_count.get_mpz_t(),
                product.get_mpz_t());
''', '''        total_count += a * b;
''')]
REFS['count_addmul'] = [(N, '''        mpz_class product = 0;
        mpz_mul(product.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        mpz_add(total_count.get_mpz_t(), total_count.get_mpz_t(),
                product.get_mpz_t());
''', '''        mpz_addmul(total_count.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
''')]
REFS['count_order'] = [(N, '''    if (cur_node->node_type() == LITERAL_NODE_TYPE) {
      count_cache[cur_node->node_index()] = 1;
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      count_cache[cur_node->node_index()] = 2;
    } else {
      assert(cur_node->node_type() == DECISION_NODE_TYPE);
''', '''    mpz_class &slot = count_cache[cur_node->node_index()];
    if (cur_node->node_type() == TOP_NODE_TYPE) {
      slot = 2;
      continue;
    }
    if (cur_node->node_type() == LITERAL_NODE_TYPE) {
      slot = 1;
      continue;
    }
    {
''')]
REFS['size_rearr'] = [(N, '''    if (cur_node->node_type() == DECISION_NODE_TYPE) {
      auto cur_decision_node = cur_node->psdd_decision_node();
      psdd_size += cur_decision_node->primes().size() - 1;
    } else if (cur_node->node_type() == TOP_NODE_TYPE) {
      psdd_size += 1;
    }''', '''    switch (cur_node->node_type()) {
      case DECISION_NODE_TYPE:
        psdd_size += cur_node->psdd_decision_node()->subs().size();
        --psdd_size;
        break;
      case TOP_NODE_TYPE:
        ++psdd_size;
        break;
      default:
        break;
    }''')]
REFS['cons_merge'] = [(N, '''      if (variable_mask[cur_node->psdd_literal_node()->variable_index()]) {
        if (partial_instantiation[cur_node->psdd_literal_node()
                                      ->variable_index()] ==
            cur_node->psdd_literal_node()->sign()) {
          cur_node->SetActivationFlag();
        }
      } else {
        cur_node->SetActivationFlag();
      }
''', '''      const PsddLiteralNode *lit = cur_node->psdd_literal_node();
      const auto var = lit->variable_index();
      if (!variable_mask[var] || partial_instantiation[var] == lit->sign()) {
        cur_node->SetActivationFlag();
      }
''')]
REFS['cons_anyof'] = [(N, '''      const auto &primes = cur_node->psdd_decision_node()->primes();
      const auto &subs = cur_node->psdd_decision_node()->subs();
      auto element_size = primes.size();
      for (size_t i = 0; i < element_size; ++i) {
        if (primes[i]->activation_flag() && subs[i]->activation_flag()) {
          cur_node->SetActivationFlag();
          break;
        }
      }
''', '''      const auto &primes = cur_node->psdd_decision_node()->primes();
      const auto &subs = cur_node->psdd_decision_node()->subs();
      bool any = false;
      for (size_t i = 0; i < primes.size() && !any; ++i) {
        any = primes[i]->activation_flag() && subs[i]->activation_flag();
      }
      if (any) cur_node->SetActivationFlag();
''')]
REFS['cons_helper'] = [(N, '''      const auto &primes = cur_node->psdd_decision_node()->primes();
      const auto &subs = cur_node->psdd_decision_node()->subs();
      auto element_size = primes.size();
      for (size_t i = 0; i < element_size; ++i) {
        if (primes[i]->activation_flag() && subs[i]->activation_flag()) {
          cur_node->SetActivationFlag();
          break;
        }
      }
''', '''      if (HasActiveElement(cur_node->psdd_decision_node())) cur_node->SetActivationFlag();
'''), (N, '''bool IsConsistent(PsddNode *node, const std::bitset<MAX_VAR> &variable_mask,''', '''static bool HasActiveElement(const PsddDecisionNode *n) {
  const auto &primes = n->primes();
  const auto &subs = n->subs();
  for (size_t i = 0; i < primes.size(); ++i) {
    if (!primes[i]->activation_flag()) continue;
    if (subs[i]->activation_flag()) return true;
  }
  return false;
}
bool IsConsistent(PsddNode *node, const std::bitset<MAX_VAR> &variable_mask,''')]
REFS['cons_front'] = [(N, '''  bool result = nodes[0]->activation_flag();
  for (PsddNode *cur_node : nodes) {
    cur_node->ResetActivationFlag();
  }
  return result;''', '''  const bool result = nodes.front()->activation_flag();
  std::for_each(nodes.begin(), nodes.end(), [](PsddNode *n) { n->ResetActivationFlag(); });
  return result;''')]
REFS['dec_cons'] = [(N, '''    PsddNode *cur_prime = primes_[i];
    PsddNode *cur_sub = subs_[i];
    if (cur_prime->IsConsistent(partial_instantiation) &&
        cur_sub->IsConsistent(partial_instantiation)) {
      return true;
    }
''', '''    if (!primes_[i]->IsConsistent(partial_instantiation)) {
      continue;
    }
    if (subs_[i]->IsConsistent(partial_instantiation)) return true;
''')]
REFS['lit_cons'] = [(N, '''  uint32_t var_index = variable_index();
  if (partial_instantiation.find(var_index) != partial_instantiation.end()) {
    return partial_instantiation.find(var_index)->second == sign();
  } else {
    return true;
  }''', '''  const auto it = partial_instantiation.find(variable_index());
  return it == partial_instantiation.end() || it->second == sign();''')]
REFS['marg_helper'] = [(N, '''      auto marginal_it = marginals.find(cur_lit->variable_index());
      if (marginal_it == marginals.end()) {
        marginals[cur_lit->variable_index()] =
            std::make_pair(PsddParameter::CreateFromDecimal(0),
                           PsddParameter::CreateFromDecimal(0));
        marginal_it = marginals.find(cur_lit->variable_index());
      }
      if (cur_lit->sign()) {
        marginal_it->second.second =
            marginal_it->second.second + derivatives[cur_lit->user_data()];
      } else {
        marginal_it->second.first =
            marginal_it->second.first + derivatives[cur_lit->user_data()];
      }
''', '''      auto ins = marginals.insert(std::make_pair(cur_lit->variable_index(),
            std::make_pair(PsddParameter::CreateFromDecimal(0),
                           PsddParameter::CreateFromDecimal(0))));
      auto &entry = ins.first->second;
      Probability &target = cur_lit->sign() ? entry.second : entry.first;
      target += derivatives[cur_lit->user_data()];
''')]
REFS['marg_default'] = [(N, '''      auto marginal_it = marginals.find(cur_lit->variable_index());
      if (marginal_it == marginals.end()) {
        marginals[cur_lit->variable_index()] =
            std::make_pair(PsddParameter::CreateFromDecimal(0),
                           PsddParameter::CreateFromDecimal(0));
        marginal_it = marginals.find(cur_lit->variable_index());
      }
      if (cur_lit->sign()) {
        marginal_it->second.second =
            marginal_it->second.second + derivatives[cur_lit->user_data()];
      } else {
        marginal_it->second.first =
            marginal_it->second.first + derivatives[cur_lit->user_data()];
      }
''', '''      auto &entry = marginals[cur_lit->variable_index()];
      if (cur_lit->sign()) {
        entry.second = derivatives[cur_lit->user_data()] + entry.second;
      } else {
        entry.first = derivatives[cur_lit->user_data()] + entry.first;
      }
''')]
REFS['marg_loop'] = [(N, '''      for (size_t i = 0; i < element_size; ++i) {
        derivatives[primes[i]->user_data()] =
            derivatives[primes[i]->user_data()] + cur_derivative * params[i];
        derivatives[subs[i]->user_data()] =
            derivatives[subs[i]->user_data()] + cur_derivative * params[i];
      }
''', '''      for (size_t i = 0; i < element_size; ++i) {
        const Probability mass = cur_derivative * params[i];
        derivatives[subs[i]->user_data()] += mass;
        derivatives[primes[i]->user_data()] += mass;
      }
''')]
REFS['marg_norm'] = [(N, '''  for (auto &cur_marginal : marginals) {
    Probability partition =
        cur_marginal.second.first + cur_marginal.second.second;
    cur_marginal.second.first = cur_marginal.second.first / partition;
    cur_marginal.second.second = cur_marginal.second.second / partition;
  }
''', '''  for (auto it = marginals.begin(); it != marginals.end(); ++it) {
    auto &m = it->second;
    const Probability total = m.second + m.first;
    m.second /= total;
    m.first /= total;
  }
''')]
REFS['marg_loc'] = [(N, '''      Probability cur_derivative = derivatives[cur_decn_node->user_data()];
      auto element_size = primes.size();
''', '''      const size_t pos = cur_decn_node->user_data();
      const Probability cur_derivative = derivatives[pos];
      const size_t element_size = subs.size();
''')]
REFS['marg_idx'] = [(N, '''  auto index = 0;
  for (PsddNode *cur_node : serialized_nodes) {
    cur_node->SetUserData((uintmax_t)index);
    index++;
  }
''', '''  for (size_t index = 0; index < serialized_nodes.size(); ++index) {
    serialized_nodes[index]->SetUserData(index);
  }
''')]
REFS['write_stream'] = [(N, '''  psdd_content += "psdd " + std::to_string(serialized_psdds.size()) + "\\n";''', '''  psdd_content += "psdd ";
  psdd_content += std::to_string(serialized_psdds.size());
  psdd_content.push_back('\\n');''')]
REFS['write_ofs'] = [(N, '''  std::ofstream output_file;
  output_file.open(output_filename);
  output_file << psdd_content;
  output_file.close();
''', '''  std::ofstream output_file(output_filename);
  output_file << psdd_content;
  output_file.close();
''')]
REFS['write_size'] = [(N, '''    cur->SetUserData(node_index);
    node_index += 1;
  }
  std::ofstream''', '''    cur->SetUserData(node_index++);
  }
  std::ofstream''')]
REFS['mpe_ref'] = [(N, '''        PsddNode *cur_prime_node = cur_primes[i];
        PsddNode *cur_sub_node = cur_subs[i];
        PsddParameter cur_parameter = cur_params[i];
        auto cur_prime_comp_cache =
            (std::pair<PsddParameter, uintmax_t> *)cur_prime_node->user_data();
        auto cur_sub_comp_cache =
            (std::pair<PsddParameter, uintmax_t> *)cur_sub_node->user_data();
        Probability cur_product = cur_prime_comp_cache->first *
                                  cur_sub_comp_cache->first * cur_parameter;
        if (cur_product > max_product) {
          max_product = cur_product;
          max_index = i;
        }
''', '''        const auto *pc = (std::pair<PsddParameter, uintmax_t> *)cur_primes[i]->user_data();
        const auto *sc = (std::pair<PsddParameter, uintmax_t> *)cur_subs[i]->user_data();
        const Probability cur_product = cur_params[i] * pc->first * sc->first;
        if (max_product < cur_product) {
          max_index = i;
          max_product = cur_product;
        }
''')]
REFS['mpe_stack'] = [(N, '''      if (cur_literal_node->sign()) {
        max_instantiation.set(cur_literal_node->variable_index());
      }
    } else if''', '''      if (cur_literal_node->literal() > 0) {
        max_instantiation[cur_literal_node->literal()] = true;
      }
    } else if''')]
REFS['mpe_top'] = [(N, '''      if (cur_top_node->true_parameter() > cur_top_node->false_parameter()) {
        cache_pair = new std::pair<PsddParameter, uintmax_t>(
            cur_top_node->true_parameter(), 1);
      } else {
        cache_pair = new std::pair<PsddParameter, uintmax_t>(
            cur_top_node->false_parameter(), 0);
      }
''', '''      const bool pick_true = cur_top_node->false_parameter() < cur_top_node->true_parameter();
      cache_pair = new std::pair<PsddParameter, uintmax_t>(
          pick_true ? cur_top_node->true_parameter() : cur_top_node->false_parameter(), pick_true ? 1 : 0);
''')]
REFS['ser_lambda'] = [(N, '''      for (const auto cur_prime : primes) {
        if (node_explored.find(cur_prime->node_index()) ==
            node_explored.end()) {
          node_explored.insert(cur_prime->node_index());
          result.push_back(cur_prime);
        }
      }
      for (const auto cur_sub : subs) {
        if (node_explored.find(cur_sub->node_index()) == node_explored.end()) {
          node_explored.insert(cur_sub->node_index());
          result.push_back(cur_sub);
        }
      }
''', '''      auto visit = [&](const std::vector<PsddNode *> &children) {
        for (PsddNode *child : children) {
          if (node_explored.insert(child->node_index()).second) {
            result.push_back(child);
          }
        }
      };
      visit(primes);
      visit(subs);
''')]
REFS['ser_for'] = [(N, '''  uintmax_t explore_index = 0;
  while (explore_index != result.size()) {
    PsddNode *cur_psdd_node = result[explore_index];
    if (cur_psdd_node->node_type() == 2) {''', '''  for (uintmax_t explore_index = 0; explore_index < result.size(); ++explore_index) {
    PsddNode *cur_psdd_node = result[explore_index];
    if (cur_psdd_node->node_type() == DECISION_NODE_TYPE) {'''), (N, '''      }
    }
    ++explore_index;
  }
  return result;''', '''      }
    }
  }
  return result;''')]
REFS['cov_count'] = [(N, '''    if (covered_nodes.find(cur_root_node->node_index()) ==
        covered_nodes.end()) {
      front_nodes.push(cur_root_node);
      covered_nodes[cur_root_node->node_index()] = cur_root_node;
    }''', '''    if (covered_nodes.count(cur_root_node->node_index()) == 0) {
      covered_nodes.emplace(cur_root_node->node_index(), cur_root_node);
      front_nodes.push(cur_root_node);
    }''')]
REFS['tosdd_ternary'] = [(N, '''      SddLiteral sdd_literal = sdd_variable_index;
      if (!cur_literal->sign()) {
        sdd_literal = -sdd_literal;
      }
''', '''      const SddLiteral sdd_literal = cur_literal->sign() ? sdd_variable_index : -sdd_variable_index;
''')]
REFS['copy_rev'] = [(N, '''  std::vector<Vtree *> orig_vtrees = SerializeVtree(root);
  auto orig_vtree_size = orig_vtrees.size();
  for (int64_t i = (int64_t)orig_vtree_size - 1; i >= 0; --i) {
    Vtree *orig_vtree = orig_vtrees[i];
    Vtree *new_node = nullptr;
    if (sdd_vtree_is_leaf(orig_vtree)) {
      new_node = new_leaf_vtree(sdd_vtree_var(orig_vtree));
''', '''  std::vector<Vtree *> orig_vtrees = SerializeVtree(root);
  for (auto it = orig_vtrees.rbegin(); it != orig_vtrees.rend(); ++it) {
    Vtree *orig_vtree = *it;
    Vtree *new_node;
    if (sdd_vtree_is_leaf(orig_vtree)) {
      new_node = new_leaf_vtree(sdd_vtree_var(orig_vtree));
''')]
REFS['vser_idx'] = [(N, '''  std::vector<Vtree *> serialized_vtree;
  std::queue<Vtree *> vtree_queue;
  vtree_queue.push(root);
  while (!vtree_queue.empty()) {
    Vtree *front_node = vtree_queue.front();
    vtree_queue.pop();
    serialized_vtree.push_back(front_node);
    if (!sdd_vtree_is_leaf(front_node)) {
      vtree_queue.push(sdd_vtree_left(front_node));
      vtree_queue.push(sdd_vtree_right(front_node));
    }
  }
  return serialized_vtree;''', '''  std::vector<Vtree *> serialized_vtree{root};
  for (size_t i = 0; i < serialized_vtree.size(); ++i) {
    Vtree *node = serialized_vtree[i];
    if (sdd_vtree_is_leaf(node)) continue;
    serialized_vtree.push_back(sdd_vtree_left(node));
    serialized_vtree.push_back(sdd_vtree_right(node));
  }
  return serialized_vtree;''')]
REFS['proj_set'] = [(N, '''  std::unordered_set<SddLiteral> variable_set;
  for (SddLiteral variable_index : variables) {
    variable_set.insert(variable_index);
  }
''', '''  const std::unordered_set<SddLiteral> variable_set(variables.begin(), variables.end());
''')]
REFS['proj_flow'] = [(N, '''      if (new_left_child && new_right_child) {
        Vtree *new_vtree_node =
            new_internal_vtree(new_left_child, new_right_child);
        sdd_vtree_set_data((void *)new_vtree_node, cur_vtree_node);
      } else if (new_left_child || new_right_child) {
        Vtree *new_vtree_node =
            new_left_child != nullptr ? new_left_child : new_right_child;
        sdd_vtree_set_data((void *)new_vtree_node, cur_vtree_node);
      } else {
        sdd_vtree_set_data(nullptr, cur_vtree_node);
      }
''', '''      Vtree *merged = nullptr;
      if (new_left_child == nullptr) {
        merged = new_right_child;
      } else if (new_right_child == nullptr) {
        merged = new_left_child;
      } else {
        merged = new_internal_vtree(new_left_child, new_right_child);
      }
      sdd_vtree_set_data((void *)merged, cur_vtree_node);
''')]
REFS['sub_flow'] = [(N, '''  if (result_candidate == nullptr) {
    return nullptr;
  }
  SddLiteral variable_size_under_candidate =
      sdd_vtree_var_count(result_candidate);
  if (variable_size_under_candidate !=
      static_cast<SddLiteral>(variables.size())) {
    return nullptr;
  } else {
    return result_candidate;
  }''', '''  const bool covers = result_candidate != nullptr && sdd_vtree_var_count(result_candidate) == static_cast<SddLiteral>(variables.size());
  return covers ? result_candidate : nullptr;''')]
REFS['leaf_back'] = [(N, '''  std::vector<SddLiteral> result;
  LeftToRightLeafTraverseHelper(&result, root);
  return result;''', '''  if (sdd_vtree_is_leaf(root)) return {sdd_vtree_var(root)};
  std::vector<SddLiteral> result = LeftToRightLeafTraverse(sdd_vtree_left(root));
  for (SddLiteral v : LeftToRightLeafTraverse(sdd_vtree_right(root))) result.push_back(v);
  return result;''')]
REFS['dsample_inl'] = [(N, '''    PsddParameter cur_parameter = parameters_[i];
    acc = acc + cur_parameter;
    if (uniform_rand < acc) {''', '''    acc += parameters_[i];
    if (acc > uniform_rand) {''')]
REFS['dsample_len'] = [(N, '''  PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
      (generator->generate() - generator->min()) /
      (generator->max() - generator->min()));
  PsddParameter acc = PsddParameter::CreateFromDecimal(0);''', '''  const double low = generator->min();
  const double span = generator->max() - low;
  const double draw = (generator->generate() - low) / span;
  const PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(draw);
  PsddParameter acc;''')]
REFS['act_flow'] = [(N, '''      if (evidence[cur_literal_node->variable_index()] ==
          cur_literal_node->sign()) {
        cur_literal_node->SetActivationFlag();
      }''', '''      const bool observed = evidence.test(cur_literal_node->variable_index());
      if (observed ? cur_literal_node->sign() : !cur_literal_node->sign()) {
        cur_node->SetActivationFlag();
      }''')]
REFS['deceq_all'] = [(N, '''  if (primes_.size() != other.primes_.size()) {
    return false;
  }
  if (flag_index() != other.flag_index()) {
    return false;
  }''', '''  if (flag_index() != other.flag_index() || primes_.size() != other.primes_.size()) return false;''')]
REFS['deceq_one'] = [(N, '''    if (primes_[i]->node_index() != other.primes_[i]->node_index()) {
      return false;
    }
    if (subs_[i]->node_index() != other.subs_[i]->node_index()) {
      return false;
    }
    if (parameters_[i] != other.parameters_[i]) {
      return false;
    }''', '''    const bool same = parameters_[i] == other.parameters_[i] && primes_[i]->node_index() == other.primes_[i]->node_index() && subs_[i]->node_index() == other.subs_[i]->node_index();
    if (!same) return false;''')]
REFS['reset_fill'] = [(N, '''  auto element_size = primes_.size();
  for (size_t i = 0; i < element_size; ++i) {
    data_counts_[i] = 0;
  }''', '''  std::fill(data_counts_.begin(), data_counts_.end(), 0);''')]
REFS['total_cons'] = [(N, '''  for (size_t i = 1; i <= variable_size; ++i) {
    evid[i] = instantiation[i];
  }
  return IsConsistent(evid);''', '''  evid.reserve(variable_size);
  for (uint32_t v = 0; v < variable_size; ++v) {
    evid.emplace(v + 1, instantiation.test(v + 1));
  }
  return IsConsistent(evid);''')]
# manager
REFS['conf_reserve'] = [(M, '''    PsddNode *cur_prime = primes[i];
    PsddNode *cur_sub = subs[i];
    PsddNode *cur_conformed_prime =
        NormalizePsddNode(left_child, cur_prime, flag_index, &true_node_map);
    PsddNode *cur_conformed_sub =
        NormalizePsddNode(right_child, cur_sub, flag_index, &true_node_map);
    conformed_primes.push_back(cur_conformed_prime);
    conformed_subs.push_back(cur_conformed_sub);
''', '''    conformed_primes.push_back(NormalizePsddNode(left_child, primes[i], flag_index, &true_node_map));
    conformed_subs.push_back(NormalizePsddNode(right_child, subs[i], flag_index, &true_node_map));
'''), (M, '''  std::vector<PsddNode *> conformed_primes;
  std::vector<PsddNode *> conformed_subs;
''', '''  std::vector<PsddNode *> conformed_primes;
  std::vector<PsddNode *> conformed_subs;
  conformed_primes.reserve(element_size);
  conformed_subs.reserve(element_size);
''')]
REFS['norm_common'] = [(M, '''    if (sdd_vtree_left(cur_vtree_parent_node) == cur_vtree_node) {
      auto true_node = GetTrueNode(sdd_vtree_right(cur_vtree_parent_node),
                                   flag_index, true_node_map);
      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, flag_index, {cur_node},
          {true_node}, {PsddParameter::CreateFromDecimal(1)});
      next_node = unique_table_->GetUniqueNode(next_node, &node_index_);
      cur_node = next_node;
    } else {
      assert(sdd_vtree_right(cur_vtree_parent_node) == cur_vtree_node);
      auto true_node = GetTrueNode(sdd_vtree_left(cur_vtree_parent_node),
                                   flag_index, true_node_map);
      PsddNode *next_node = new PsddDecisionNode(
          node_index_, cur_vtree_parent_node, flag_index, {true_node},
          {cur_node}, {PsddParameter::CreateFromDecimal(1)});
      next_node = unique_table_->GetUniqueNode(next_node, &node_index_);
      cur_node = next_node;
    }
''', '''    const bool is_left = sdd_vtree_left(cur_vtree_parent_node) == cur_vtree_node;
    Vtree *sibling = is_left ? sdd_vtree_right(cur_vtree_parent_node) : sdd_vtree_left(cur_vtree_parent_node);
    PsddNode *true_node = GetTrueNode(sibling, flag_index, true_node_map);
    PsddNode *prime = is_left ? cur_node : true_node;
    PsddNode *sub = is_left ? true_node : cur_node;
    PsddNode *next_node = new PsddDecisionNode(
        node_index_, cur_vtree_parent_node, flag_index, {prime}, {sub},
        {PsddParameter::CreateFromDecimal(1)});
    cur_node = unique_table_->GetUniqueNode(next_node, &node_index_);
''')]
REFS['true_find'] = [(M, '''  if (true_node_map->find(sdd_vtree_position(target_vtree_node)) !=
      true_node_map->end()) {
    return true_node_map->find(sdd_vtree_position(target_vtree_node))->second;
  } else {''', '''  auto cached = true_node_map->find(sdd_vtree_position(target_vtree_node));
  if (cached != true_node_map->end()) {
    return cached->second;
  } else {''')]
REFS['load_helper'] = [(M, '''      std::vector<PsddNode *> new_primes(cur_primes.size(), nullptr);
      std::vector<PsddNode *> new_subs(cur_subs.size(), nullptr);
      for (size_t i = 0; i < cur_primes.size(); ++i) {
        new_primes[i] = (PsddNode *)cur_primes[i]->user_data();
        new_subs[i] = (PsddNode *)cur_subs[i]->user_data();
      }
''', '''      std::vector<PsddNode *> new_primes = Images(cur_primes);
      std::vector<PsddNode *> new_subs = Images(cur_subs);
'''), (M, '''// TODO: Use the flag index from the input
PsddNode *PsddManager::LoadPsddNode(''', '''static std::vector<PsddNode *> Images(const std::vector<PsddNode *> &nodes) {
  std::vector<PsddNode *> images;
  images.reserve(nodes.size());
  for (PsddNode *n : nodes) images.push_back((PsddNode *)n->user_data());
  return images;
}
PsddNode *PsddManager::LoadPsddNode(''')]
REFS['load_transform'] = [(M, '''      for (size_t i = 0; i < cur_primes.size(); ++i) {
        new_primes[i] = (PsddNode *)cur_primes[i]->user_data();
        new_subs[i] = (PsddNode *)cur_subs[i]->user_data();
      }
''', '''      for (size_t i = 0; i < cur_primes.size(); ++i) {
        new_primes[i] = (PsddNode *)cur_primes[i]->user_data();
      }
      for (size_t i = 0; i < cur_subs.size(); ++i) {
        new_subs[i] = (PsddNode *)cur_subs[i]->user_data();
      }
''')]
REFS['load_over'] = [(M, '''  std::unordered_map<SddLiteral, PsddNode *> true_node_map;
  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node,
                                            flag_index, &true_node_map);
''', '''  PsddNode *result_node = NormalizePsddNode(target_vtree, new_root_node, flag_index);
''')]
REFS['mul_acc'] = [(M, '''        next_parameters.push_back(cur_second_param * cur_first_param *
                                  cur_prime_result.second *
                                  cur_sub_result.second);
        partition = partition + next_parameters.back();
''', '''        PsddParameter weight = cur_first_param * cur_second_param;
        weight = weight * cur_prime_result.second * cur_sub_result.second;
        partition = partition + weight;
        next_parameters.push_back(weight);
''')]
REFS['mul_cond'] = [(M, '''      if (first_literal_node->sign()) {
        PsddNode *new_node = manager->GetPsddLiteralNode(
            first_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, second_top_node->true_parameter()};
        cache->Update(first, second, comp_result);
        return comp_result;
      } else {
        PsddNode *new_node = manager->GetPsddLiteralNode(
            first_literal_node->literal(), flag_index);
        std::pair<PsddNode *, Probability> comp_result = {
            new_node, second_top_node->false_parameter()};
        cache->Update(first, second, comp_result);
        return comp_result;
      }
''', '''      PsddNode *new_node = manager->GetPsddLiteralNode(
          first_literal_node->literal(), flag_index);
      const Probability weight = first_literal_node->sign()
                                     ? second_top_node->true_parameter()
                                     : second_top_node->false_parameter();
      std::pair<PsddNode *, Probability> comp_result(new_node, weight);
      cache->Update(first, second, comp_result);
      return comp_result;
''')]
REFS['mul_norm'] = [(M, '''    for (auto &single_parameter : next_parameters) {
      single_parameter = single_parameter / partition;
      assert(single_parameter != PsddParameter::CreateFromDecimal(0));
    }
''', '''    for (size_t k = 0; k < next_parameters.size(); ++k) {
      next_parameters[k] /= partition;
    }
''')]
REFS['mul_helper'] = [(M, '''      PsddParameter pos_weight =
          first_top_node->true_parameter() * second_top_node->true_parameter();
      PsddParameter neg_weight = first_top_node->false_parameter() *
                                 second_top_node->false_parameter();
      PsddParameter partition = pos_weight + neg_weight;
''', '''      PsddParameter neg_weight = second_top_node->false_parameter() *
                                 first_top_node->false_parameter();
      PsddParameter pos_weight = first_top_node->true_parameter();
      pos_weight *= second_top_node->true_parameter();
      PsddParameter partition = neg_weight + pos_weight;
''')]
REFS['mul_rev'] = [(M, '''      for (size_t j = 0; j < second_element_size; ++j) {
        PsddNode *cur_second_prime = second_primes[j];
        auto cur_prime_result = MultiplyWithCache(
            cur_first_prime, cur_second_prime, manager, flag_index, cache);
        if (cur_prime_result.first == nullptr) {
          continue;
        }
        PsddNode *cur_second_sub = second_subs[j];
        auto cur_sub_result = MultiplyWithCache(cur_first_sub, cur_second_sub,
                                                manager, flag_index, cache);
        if (cur_sub_result.first == nullptr) {
          continue;
        }
        next_primes''', '''      for (size_t j = 0; j < second_element_size; ++j) {
        auto cur_prime_result = MultiplyWithCache(
            cur_first_prime, second_primes[j], manager, flag_index, cache);
        if (!cur_prime_result.first) continue;
        auto cur_sub_result = MultiplyWithCache(cur_first_sub, second_subs[j],
                                                manager, flag_index, cache);
        if (!cur_sub_result.first) continue;
        next_primes''')]
REFS['learn_top'] = [(M, '''        for (size_t i = 0; i < data_size; ++i) {
          if (cur_contexts[i]) {
            if (example_it->second[i]) {
              ++pos_data_count;
            } else {
              ++neg_data_count;
            }
          }
        }
''', '''        const auto &column = example_it->second;
        for (size_t i = 0; i < data_size; ++i) {
          if (!cur_contexts[i]) continue;
          if (column[i]) {
            pos_data_count += 1;
          } else {
            neg_data_count += 1;
          }
        }
''')]
REFS['learn_swap'] = [(M, '''        for (size_t i = 0; i < element_size; ++i) {
          const auto &cur_prime_value = primes[i]->batched_psdd_value();
          const auto &cur_sub_value = subs[i]->batched_psdd_value();
          for (size_t j = 0; j < data_size; ++j) {
            if (cur_contexts[j] && cur_prime_value[j] && cur_sub_value[j]) {
              cur_decn_node->IncrementDataCount(i, 1);
              primes[i]->MutableBatchedPsddContextValue()->at(j) = true;
              subs[i]->MutableBatchedPsddContextValue()->at(j) = true;
            }
          }
        }
''', '''        for (size_t i = 0; i < element_size; ++i) {
          const auto &cur_prime_value = primes[i]->batched_psdd_value();
          const auto &cur_sub_value = subs[i]->batched_psdd_value();
          auto *prime_context = primes[i]->MutableBatchedPsddContextValue();
          auto *sub_context = subs[i]->MutableBatchedPsddContextValue();
          uintmax_t reached = 0;
          for (size_t j = 0; j < data_size; ++j) {
            if (cur_contexts[j] && cur_prime_value[j] && cur_sub_value[j]) {
              ++reached;
              (*prime_context)[j] = true;
              (*sub_context)[j] = true;
            }
          }
          cur_decn_node->IncrementDataCount(i, reached);
        }
''')]
REFS['learn_else'] = [(M, '''      if (cur_node->node_type() == TOP_NODE_TYPE) {
        BatchedPsddValue cur_batched_value(data_size, true);
        cur_node->SetBatchedPsddValue(std::move(cur_batched_value));
        continue;
      }
      if (cur_node->node_type() == DECISION_NODE_TYPE) {
        PsddDecisionNode *cur_decn_node''', '''      if (cur_node->node_type() == TOP_NODE_TYPE) {
        cur_node->SetBatchedPsddValue(BatchedPsddValue(data_size, true));
      } else if (cur_node->node_type() == DECISION_NODE_TYPE) {
        PsddDecisionNode *cur_decn_node''')]
REFS['learn_params'] = [(M, '''      for (size_t i = 0; i < element_size; ++i) {
        parameters[i] = parameters[i] / total_data_counts;
      }
      PsddNode *new_decn_node''', '''      for (auto &p : parameters) p /= total_data_counts;
      PsddNode *new_decn_node''')]
REFS['learn_flip'] = [(M, '''        if (!cur_literal_node->sign()) {
          auto data_size = cur_batched_value.size();
          for (size_t i = 0; i < data_size; ++i) {
            cur_batched_value[i] = !cur_batched_value[i];
          }
        }
''', '''        if (!cur_literal_node->sign()) {
          cur_batched_value.flip();
        }
''')]
REFS['learn_smooth'] = [(M, '''      const auto true_data_count =
          PsddParameter::CreateFromDecimal(
              static_cast<double>(cur_top_node->true_data_count())) +
          alpha;
      const auto false_data_count =
          PsddParameter::CreateFromDecimal(
              static_cast<double>(cur_top_node->false_data_count())) +
          alpha;
''', '''      auto smoothed = [&alpha](uintmax_t count) {
        return alpha + PsddParameter::CreateFromDecimal(static_cast<double>(count));
      };
      const auto true_data_count = smoothed(cur_top_node->true_data_count());
      const auto false_data_count = smoothed(cur_top_node->false_data_count());
''')]
REFS['psample_push'] = [(M, '''  auto root_psdd_nodes_size = root_psdd_nodes.size();
  std::vector<PsddNode *> new_root_nodes(root_psdd_nodes_size, nullptr);
  for (size_t i = 0; i < root_psdd_nodes_size; ++i) {
    new_root_nodes[i] = (PsddNode *)root_psdd_nodes[i]->user_data();
  }
''', '''  std::vector<PsddNode *> new_root_nodes;
  for (PsddNode *root : root_psdd_nodes) {
    new_root_nodes.push_back((PsddNode *)root->user_data());
  }
''')]
REFS['psample_one'] = [(M, '''      std::vector<PsddParameter> next_parameters(element_size);
      for (size_t i = 0; i < element_size; ++i) {
        next_parameters[i] = sampled_number[i] / sum;
      }
''', '''      std::vector<PsddParameter> next_parameters;
      for (const PsddParameter &draw : sampled_number) next_parameters.emplace_back(draw / sum);
''')]
REFS['conv_skip'] = [(M, '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (sdd_node_is_false(root_node)) {
    // nullptr for PsddNode means false
    return nullptr;
  }
  if (sdd_node_is_true(root_node)) {
    return GetTrueNode(vtree_, flag_index);
  }
''', '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (sdd_node_is_true(root_node)) return GetTrueNode(vtree_, flag_index);
  if (sdd_node_is_false(root_node)) return nullptr;
''')]
REFS['conv_deleg'] = [(M, '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (sdd_node_is_false(root_node)) {''', '''PsddNode *PsddManager::ConvertSddToPsdd(SddNode *root_node, Vtree *sdd_vtree,
                                        uintmax_t flag_index) {
  if (true) return FromSdd(root_node, sdd_vtree, flag_index, vtree_);
  if (sdd_node_is_false(root_node)) {''')]
REFS['read_helper'] = [(M, '''      construct_cache[node_index] = cur_node;
      root_node = cur_node;
    } else if (line[0] == 'T') {''', '''      root_node = cur_node;
      construct_cache[node_index] = root_node;
    } else if (line[0] == 'T') {''')]
REFS['read_iss'] = [(M, '''      std::istringstream iss(line.substr(1, std::string::npos));
      uintmax_t node_index;
      uint32_t vtree_index;
      int32_t literal;
      iss >> node_index >> vtree_index >> literal;
''', '''      std::istringstream iss(line.substr(1));
      uintmax_t node_index = 0;
      uint32_t vtree_index = 0;
      int32_t literal = 0;
      iss >> node_index;
      iss >> vtree_index;
      iss >> literal;
''')]
REFS['mgr_copy'] = [(M, '''  Vtree *copy_vtree = vtree_util::CopyVtree(psdd_vtree);
  auto *unique_table = PsddUniqueTable::GetPsddUniqueTable();
  return new PsddManager(copy_vtree, unique_table);''', '''  auto *unique_table = PsddUniqueTable::GetPsddUniqueTable();
  return new PsddManager(vtree_util::CopyVtree(psdd_vtree), unique_table);''')]
REFS['top_at'] = [(M, '''  Vtree *target_vtree_node = leaf_vtree_map_[variable_index];
  assert(sdd_vtree_is_leaf(target_vtree_node));
  auto next_node = new PsddTopNode(node_index_, target_vtree_node, flag_index,
                                   (uint32_t)sdd_vtree_var(target_vtree_node),
''', '''  Vtree *target_vtree_node = leaf_vtree_map_.at(variable_index);
  auto next_node = new PsddTopNode(node_index_, target_vtree_node, flag_index,
                                   variable_index,
''')]
REFS['lit_at'] = [(M, '''  Vtree *target_vtree_node = leaf_vtree_map_[abs(literal)];
  assert(sdd_vtree_is_leaf(target_vtree_node));
''', '''  const int32_t variable = literal > 0 ? literal : -literal;
  Vtree *target_vtree_node = leaf_vtree_map_.find(variable)->second;
''')]
