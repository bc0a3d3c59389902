N='src/psdd_node.cpp'
REFS={
'cov_assign':[(N,'''        if (covered_nodes.find(cur_sub->node_index()) == covered_nodes.end()) {
          covered_nodes[cur_sub->node_index()] = cur_sub;
          front_nodes.push(cur_sub);
        }''','''        if (covered_nodes.count(cur_sub->node_index()) == 0) {
          front_nodes.push(cur_sub);
        }
        covered_nodes[cur_sub->node_index()] = cur_sub;''')],
'cov_dead':[(N,'''    front_nodes.pop();
    if (cur_psdd_node->node_type() == 2) {''','''    front_nodes.pop();
    if (covered_nodes.count(cur_psdd_node->node_index()) == 0) continue;
    if (cur_psdd_node->node_type() == 2) {''')],
'ser_dead':[(N,'''    PsddNode *cur_psdd_node = result[explore_index];
''','''    PsddNode *cur_psdd_node = result[explore_index];
    node_explored.insert(cur_psdd_node->node_index());
''')],
'cov_late':[(N,'''    PsddNode *cur_psdd_node = front_nodes.front();
    front_nodes.pop();''','''    PsddNode *cur_psdd_node = front_nodes.front();
    front_nodes.pop();
    covered_nodes[cur_psdd_node->node_index()] = cur_psdd_node;''')],
'ser_set':[(N,'''  std::unordered_set<uintmax_t> node_explored;
  std::vector<PsddNode *> result;
  for (const auto cur_root_node : root_nodes) {
    if (node_explored.find(cur_root_node->node_index()) ==
        node_explored.end()) {
      result.push_back(cur_root_node);
      node_explored.insert(cur_root_node->node_index());
    }
  }
  uintmax_t explore_index = 0;
  while (explore_index != result.size()) {
    PsddNode *cur_psdd_node = result[explore_index];
    if (cur_psdd_node->node_type() == 2) {
      auto cur_decn_node = static_cast<PsddDecisionNode *>(cur_psdd_node);
      const std::vector<PsddNode *> &primes = cur_decn_node->primes();
      const std::vector<PsddNode *> &subs = cur_decn_node->subs();
      for (const auto cur_prime : primes) {
        if (node_explored.find(cur_prime->node_index()) ==
            node_explored.end()) {
          node_explored.insert(cur_prime->node_index());
          result.push_back(cur_prime);
        }
      }
      for (const auto cur_sub : subs) {
        if (node_explored.find(cur_sub->node_index()) == node_explored.end()) {
          node_explored.insert(cur_sub->node_index());
          result.push_back(cur_sub);
        }
      }
    }
    ++explore_index;
  }
  return result;''','''  std::unordered_set<PsddNode *> seen;
  std::vector<PsddNode *> result;
  const auto visit = [&](PsddNode *n) {
    if (seen.insert(n).second) result.push_back(n);
  };
  for (PsddNode *r : root_nodes) visit(r);
  for (std::size_t i = 0; i < result.size(); ++i) {
    PsddNode *n = result[i];
    if (n->node_type() != 2) continue;
    PsddDecisionNode *d = n->psdd_decision_node();
    for (PsddNode *p : d->primes()) visit(p);
    for (PsddNode *s : d->subs()) visit(s);
  }
  return result;''')],
'ser_pairs':[(N,'''      for (const auto cur_prime : primes) {
        if (node_explored.find(cur_prime->node_index()) ==
            node_explored.end()) {
          node_explored.insert(cur_prime->node_index());
          result.push_back(cur_prime);
        }
      }
      for (const auto cur_sub : subs) {
        if (node_explored.find(cur_sub->node_index()) == node_explored.end()) {
          node_explored.insert(cur_sub->node_index());
          result.push_back(cur_sub);
        }
      }''','''      for (const auto *children : {&primes, &subs}) {
        for (const auto child : *children) {
          if (node_explored.find(child->node_index()) != node_explored.end()) continue;
          node_explored.insert(child->node_index());
          result.push_back(child);
        }
      }''')],
}
