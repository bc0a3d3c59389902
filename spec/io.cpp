// Reference models for the readers, writers and data sets (see node.cpp for how these are used).
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
#include <psdd/csvparser.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/random_double_generator.h>
#include <psdd/uai_network.h>
#include <sstream>
extern "C" {
#include <sdd/sddapi.h>
}

namespace ref {
// ---- CNF
void CnfFile(CNF *self, const char *name) {
  std::vector<std::vector<SddLiteral>> clauses;
  std::ifstream in(name);
  if (!in) exit(1);
  std::string line;
  while (getline(in, line)) {
    if (line[0] == 'p' || line[0] == 'c') continue;
    std::stringstream tokens(line);
    std::vector<SddLiteral> clause;
    SddLiteral lit;
    bool any = false;
    while (tokens >> lit) {
      any = true;
      if (lit == 0) break;
      clause.push_back(lit);
    }
    if (any) clauses.push_back(clause);
  }
  self->clauses_ = clauses;
}
void CnfClauses(CNF *self, const std::vector<std::vector<SddLiteral>> &clauses) { self->clauses_ = clauses; }
const std::vector<std::vector<SddLiteral>> &CnfGet(const CNF *self) { return self->clauses_; }

// conjunction over clauses of the disjunction of their literals, over a copy of the vtree whose
// variables are numbered 1, 2, ... in the order of the vtree
PsddNode *CnfCompile(const CNF *self, PsddManager *m, uintmax_t flag) {
  std::unordered_map<SddLiteral, SddLiteral> number;
  std::vector<SddLiteral> variables = vtree_util::VariablesUnderVtree(m->vtree());
  for (size_t i = 0; i < variables.size(); ++i) number[variables[i]] = (SddLiteral)(i + 1);
  Vtree *copy = vtree_util::CopyVtree(m->vtree(), number);
  SddManager *sm = sdd_manager_new(copy);
  sdd_vtree_free(copy);
  sdd_manager_auto_gc_and_minimize_off(sm);
  SddNode *all = sdd_manager_true(sm);
  for (const auto &clause : self->clauses_) {
    SddNode *any = sdd_manager_false(sm);
    for (SddLiteral lit : clause) {
      SddLiteral v = number.find(lit < 0 ? -lit : lit)->second;
      any = sdd_disjoin(sdd_manager_literal(lit < 0 ? -v : v, sm), any, sm);
    }
    all = sdd_conjoin(all, any, sm);
  }
  PsddNode *r = m->ConvertSddToPsdd(all, sdd_manager_vtree(sm), flag);
  sdd_manager_free(sm);
  return r;
}

// ---- UAI network
void UaiMake(UaiNetwork *self, size_t variables, size_t factors, int type, std::vector<std::vector<size_t>> scopes,
             std::vector<std::vector<PsddParameter>> tables) {
  self->m_var_size = variables;
  self->m_factor_size = factors;
  self->m_network_type = type;
  self->m_clusters = scopes;
  self->m_params = tables;
}
size_t UaiVariables(UaiNetwork *self) { return self->m_var_size; }
size_t UaiFactors(UaiNetwork *self) { return self->m_factor_size; }
int UaiType(const UaiNetwork *self) { return self->m_network_type; }
const std::vector<std::vector<size_t>> &UaiScopes(const UaiNetwork *self) { return self->m_clusters; }
const std::vector<std::vector<PsddParameter>> &UaiTables(const UaiNetwork *self) { return self->m_params; }

void UaiRead(UaiNetwork *self, const char *name) {
  std::ifstream in(name);
  std::string line = "";
  getline(in, line);
  self->m_network_type = line.find("BAYES") != std::string::npos ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE;
  getline(in, line);
  self->m_var_size = (size_t)stoi(line);
  getline(in, line);  // cardinalities: all variables are binary
  getline(in, line);
  self->m_factor_size = (size_t)stoi(line);
  for (size_t i = 0; i < self->m_factor_size; ++i) {
    getline(in, line);
    std::istringstream tokens(line);
    int n;
    tokens >> n;
    std::vector<size_t> scope;
    int v;
    while (tokens >> v) scope.push_back((size_t)(v + 1));
    self->m_clusters.push_back(scope);
  }
  for (size_t i = 0; i < self->m_factor_size; ++i) {
    getline(in, line);
    while (line == "" && in) getline(in, line);
    if (!in) exit(1);
    std::istringstream tokens(line);
    size_t n;
    tokens >> n;
    std::vector<PsddParameter> table;
    double w;
    while (tokens >> w) table.push_back(PsddParameter::CreateFromDecimal(w));
    while (table.size() < n) {
      getline(in, line);
      if (!in) exit(1);
      tokens.str(line);
      tokens.clear();
      while (tokens >> w) table.push_back(PsddParameter::CreateFromDecimal(w));
    }
    assert(table.size() == n);
    assert(n != 0);
    self->m_params.push_back(table);
  }
}

// ---- data sets
uintmax_t DataSize(const BinaryData *self) { return self->data_size_; }
uint32_t DataVariables(const BinaryData *self) { return self->variable_size_; }
void DataSetVariables(BinaryData *self, uint32_t n) { self->variable_size_ = n; }
const std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> &DataGet(const BinaryData *self) { return self->data_; }
void DataAdd(BinaryData *self, const std::bitset<MAX_VAR> &record) {
  self->data_[record] += 1;
  self->data_size_ += 1;
}
double DataEntropy(const BinaryData *self) {
  double sum = 0;
  for (const auto &r : self->data_) sum += r.second * (std::log(r.second) - std::log(self->data_size_));
  return sum / self->data_size_;
}
void FreshData(uintmax_t *records, uint32_t *variables) {
  *records = 0;
  *variables = 0;
}
uintmax_t AddTwice(const std::bitset<MAX_VAR> &, const std::bitset<MAX_VAR> &) { return 2; }
void DataRead(BinaryData *self, const char *name) {
  CsvParser *csv = CsvParser_new(name, ",", 0);
  if (csv == nullptr || !std::ifstream(name)) exit(1);
  self->data_.clear();
  self->data_size_ = 0;
  self->variable_size_ = 0;
  CsvRow *row;
  while ((row = CsvParser_getRow(csv))) {
    const char **fields = CsvParser_getFields(row);
    std::bitset<MAX_VAR> record;
    for (int i = 0; i < CsvParser_getNumFields(row); ++i)
      if (atoi(fields[i])) record.set((size_t)(i + 1));
    self->data_[record] += 1;
    self->data_size_ += 1;
    if (self->variable_size_ == 0)
      self->variable_size_ = (uint32_t)CsvParser_getNumFields(row);
    else
      assert(self->variable_size_ == (uint32_t)CsvParser_getNumFields(row));
    CsvParser_destroy_row(row);
  }
  CsvParser_destroy(csv);
}
void DataWrite(BinaryData *self, const char *name) {
  std::ofstream out;
  out.open(name);
  for (const auto &r : self->data_) {
    for (size_t j = 0; j < r.second; ++j) {
      std::string line;
      for (uint32_t k = 1; k <= self->variable_size_; ++k) {
        line += std::to_string(r.first[k]);
        line += ",";
      }
      line.pop_back();
      out << line << std::endl;
    }
  }
  out.close();
}
}  // namespace ref

// ---- clients of the public interface (compared with the models of the same name)
namespace use {
void FreshData(uintmax_t *records, uint32_t *variables) {
  BinaryData d;
  *records = d.data_size();
  *variables = d.variable_size();
}
uintmax_t AddTwice(const std::bitset<MAX_VAR> &a, const std::bitset<MAX_VAR> &b) {
  BinaryData d;
  d.AddRecord(a);
  d.AddRecord(b);
  return d.data_size();
}
}  // namespace use
