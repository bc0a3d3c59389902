"""The obligation table: which reference model each public operation is compared
with, and which obligations (and structural rules) decide each property."""
from equiv import *

N = 'psdd_node_util::'
M = 'PsddManager::'
BM = 'const std::bitset<65536> &'
NL = 'const std::vector<PsddNode *> &'
MP = 'const std::unordered_map<unsigned int, bool> &'
UM = 'std::unordered_map<long, PsddNode *>'
PP = 'PsddParameter::'


def paraminv(t):
    """class invariant of PsddParameter, established by every obligation of group param:
    the hash is the truncation of 10^7 times the logarithm"""
    H, Pf = 'PsddParameter::hash_value_', 'PsddParameter::parameter_'
    if t.op == 'fld:' + H:
        return app('trunc', mul(c(10 ** 7), getf(t.args[0], Pf)))
    if t.op == 'elem' and t.args[0].op == 'arr0' and t.args[0].args[0] == H:
        return app('trunc', mul(c(10 ** 7), sel(mkT('arr0', (Pf,)), t.args[1])))
    return t


def managerinv(t):
    """class invariant of PsddManager, established by the constructor: the leaf map sends a variable to its own leaf"""
    if t.op in ('vt:var', 'vt:leaf'):
        x = t.args[0]
        if x.op == 'elem' and x.args[0].op.startswith('fld:PsddManager::'):
            return TRUE if t.op == 'vt:leaf' else x.args[1]
    return t


# name -> (function, reference, spec, options, public?)
OBS = {}
GROUPS = {}


def add(group, spec, rows):
    g = GROUPS.setdefault(group, [])
    for r in rows:
        fn, ref, k = r[0], r[1], (r[2] if len(r) > 2 else {})
        k = dict(k)
        name = '%s/%s' % (spec, k.pop('label', ref))
        assert name not in OBS, name
        public = k.pop('public', True)
        if spec == 'manager':
            k.setdefault('rw', managerinv)
        OBS[name] = (fn, ref, spec, k, public)
        g.append(name)


add('eval', 'node', [
    (N + 'Evaluate(%s, %s, %s)' % (BM, BM, NL), 'Evaluate', dict(nodes=[2])),
    (N + 'Evaluate(%s, %s, PsddNode *)' % (BM, BM), 'Evaluate1'),
])
add('count', 'node', [
    (N + 'ModelCount', 'ModelCount', dict(nodes=[0])),
    (N + 'GetPsddSize', 'GetPsddSize'),
])
add('consist', 'node', [
    (N + 'IsConsistent(%s, %s, %s)' % (NL, BM, BM), 'IsConsistentList', dict(nodes=[0])),
    (N + 'IsConsistent(PsddNode *, %s, %s)' % (BM, BM), 'IsConsistent1'),
    ('PsddLiteralNode::IsConsistent', 'LiteralConsistent'),
    ('PsddDecisionNode::IsConsistent', 'DecisionConsistent', dict(opaque=['PsddNode::IsConsistent(%s) const' % MP])),
    ('PsddTopNode::IsConsistent', 'TopConsistent'),
    ('PsddNode::IsConsistent', 'TotalConsistent', dict(opaque=['PsddNode::IsConsistent(%s) const' % MP])),
    (N + 'SetActivationFlag', 'SetActivationFlag', dict(nodes=[1])),
])
add('marg', 'node', [(N + 'GetMarginals', 'GetMarginals', dict(nodes=[0]))])
add('mpe', 'node', [
    (N + 'GetMPESolution(%s)' % NL, 'GetMPESolution', dict(nodes=[0])),
    (N + 'GetMPESolution(PsddNode *)', 'GetMPESolution1', dict(opaque=[N + 'GetMPESolution(%s)' % NL])),
])
add('dsample', 'node', [
    ('PsddLiteralNode::DirectSample', 'LiteralSample'),
    ('PsddTopNode::DirectSample', 'TopSample'),
    ('PsddDecisionNode::DirectSample', 'DecisionSample', dict(effect=['PsddNode::DirectSample(std::bitset<65536> *, RandomDoubleFromUniformGenerator *)'])),
])
add('write', 'node', [(N + 'WritePsddToFile', 'WritePsddToFile')])
add('tosdd', 'node', [(N + 'ConvertPsddNodeToSddNode', 'ConvertPsddNodeToSddNode', dict(nodes=[0]))])
add('nodeacc', 'node', [
    ('PsddLiteralNode::sign', 'LiteralSign'),
    ('PsddLiteralNode::variable_index', 'LiteralVariable'),
])
add('nodeeq', 'node', [
    ('PsddLiteralNode::operator==', 'LiteralEq'),
    ('PsddDecisionNode::operator==', 'DecisionEq'),
    ('PsddTopNode::operator==', 'TopEq'),
])
add('counts', 'node', [
    ('PsddDecisionNode::IncrementDataCount', 'IncData'),
    ('PsddDecisionNode::ResetDataCount', 'ResetDecision'),
    ('PsddTopNode::ResetDataCount', 'ResetTop'),
    ('PsddTopNode::IncrementTrueDataCount', 'IncTrue'),
    ('PsddTopNode::IncrementFalseDataCount', 'IncFalse'),
])
PN = 'const std::vector<PsddNode *> &'
PPV = 'const std::vector<PsddParameter> &'
o = dict(this='nn:new', skip=r'hash_value_')
add('ctor', 'node', [(a, b, o) for a, b in [
    ('PsddLiteralNode::PsddLiteralNode(unsigned long, vtree_t *, unsigned long, int)', 'NewLiteral'),
    ('PsddLiteralNode::PsddLiteralNode(unsigned long *, vtree_t *, unsigned long, int)', 'NewLiteralAt'),
    ('PsddLiteralNode::PsddLiteralNode(unsigned long *, vtree_t *, int)', 'NewLiteral0'),
    ('PsddTopNode::PsddTopNode(unsigned long, vtree_t *, unsigned long, unsigned int, PsddParameter, PsddParameter)', 'NewTop'),
    ('PsddTopNode::PsddTopNode(unsigned long *, vtree_t *, unsigned long, unsigned int)', 'NewTopAt'),
    ('PsddTopNode::PsddTopNode(unsigned long *, vtree_t *, unsigned int)', 'NewTop0'),
    ('PsddDecisionNode::PsddDecisionNode(unsigned long, vtree_t *, unsigned long, %s, %s, %s)' % (PN, PN, PPV), 'NewDecision'),
    ('PsddDecisionNode::PsddDecisionNode(unsigned long *, vtree_t *, unsigned long, %s, %s, %s)' % (PN, PN, PPV), 'NewDecisionAt'),
    ('PsddDecisionNode::PsddDecisionNode(unsigned long *, vtree_t *, unsigned long, %s, %s)' % (PN, PN), 'NewDecisionN'),
    ('PsddDecisionNode::PsddDecisionNode(unsigned long *, vtree_t *, %s, %s)' % (PN, PN), 'NewDecision0'),
]])
add('vtree', 'node', [
    ('vtree_util::CopyVtree(vtree_t *)', 'CopyVtree'),
    ('vtree_util::CopyVtree(vtree_t *, const std::unordered_map<long, long> &)', 'CopyVtreeMap'),
    ('vtree_util::VariablesUnderVtree', 'VariablesUnderVtree'),
    ('vtree_util::ProjectVtree', 'ProjectVtree'),
    ('vtree_util::SubVtreeByVariables', 'SubVtreeByVariables'),
    ('vtree_util::LeftToRightLeafTraverse', 'LeftToRightLeafTraverse'),
])
add('vser', 'node', [('vtree_util::SerializeVtree', 'SerializeVtreeR')])
add('ser', 'node', [
    (N + 'SerializePsddNodes(%s)' % NL, 'SerializeR'),
    (N + 'SerializePsddNodes(PsddNode *)', 'SerializePsddNodes1'),
])
add('covered', 'node', [(N + 'GetCoveredPsddNodes', 'GetCoveredPsddNodes')])

add('topnode', 'manager', [(M + 'GetPsddTopNode', 'GetPsddTopNode')])
add('litnode', 'manager', [(M + 'GetPsddLiteralNode', 'GetPsddLiteralNode')])
add('conf', 'manager', [(M + 'GetConformedPsddDecisionNode', 'GetConformedPsddDecisionNode')])
add('true', 'manager', [
    (M + 'GetTrueNode(vtree_t *, unsigned long, %s *)' % UM, 'GetTrueNodeMap', dict(public=False)),
    (M + 'GetTrueNode(vtree_t *, unsigned long)', 'GetTrueNode'),
])
add('norm', 'manager', [
    (M + 'NormalizePsddNode(vtree_t *, PsddNode *, unsigned long, %s *)' % UM, 'NormalizeMap', dict(public=False)),
    (M + 'NormalizePsddNode(vtree_t *, PsddNode *, unsigned long)', 'Normalize'),
])
add('convert', 'manager', [(M + 'ConvertSddToPsdd', 'ConvertSddToPsdd')])
add('fromsdd', 'manager', [
    (M + 'FromSdd(sdd_node_t *, vtree_t *, unsigned long, vtree_t *)', 'FromSddVtree'),
    (M + 'FromSdd(sdd_node_t *, vtree_t *, unsigned long, const std::unordered_set<long> &)', 'FromSddVars',
     dict(opaque=[M + 'FromSdd(sdd_node_t *, vtree_t *, unsigned long, vtree_t *)', 'vtree_util::SubVtreeByVariables'])),
])
add('load', 'manager', [(M + 'LoadPsddNode', 'LoadPsddNode')])
add('multiply', 'manager', [(M + 'Multiply', 'Multiply')])
add('read', 'manager', [(M + 'ReadPsddFile', 'ReadPsddFile')])
add('psample', 'manager', [
    (M + 'SampleParametersForMultiplePsdds', 'SampleMultiple'),
    (M + 'SampleParameters', 'SampleParameters', dict(opaque=[M + 'SampleParametersForMultiplePsdds'])),
])
add('mkmanager', 'manager', [
    (M + 'GetPsddManagerFromSddVtree', 'FromSddVtreeManager'),
    (M + 'GetPsddManagerFromVtree', 'FromVtreeManager', dict(opaque=['vtree_util::CopyVtree(vtree_t *)'])),
])
add('learn', 'manager', [(M + 'LearnPsddParameters', 'LearnPsddParameters')])

G = 'PgmCompiler::'
NET = dict(opaque=[G + 'compile_factor', M + 'Multiply', N + 'SerializePsddNodes'], trace=[M + 'DeleteUnusedPsddNodes'])
add('factor', 'pgm', [(G + 'compile_factor', 'Factor')])
add('network', 'pgm', [
    (G + 'compile_network(unsigned long)', 'Network', NET),
    (G + 'compile_network_dc', 'NetworkDc', NET),
    (G + 'compile_network_with_vtree', 'NetworkVtree', NET),
])
CV = ['JointreeVtree::ConstructVtree', 'MinFillVtree::ConstructVtree', 'HypergraphDecompositionVtree::ConstructVtree']
add('pgminit', 'pgm', [
    (G + 'init_psdd_manager(char)', 'InitManager', dict(opaque=CV + [M + 'GetPsddManagerFromVtree'])),
    (G + 'init_psdd_manager_from_vtree', 'FromVtreeFile', dict(opaque=[M + 'GetPsddManagerFromVtree'])),
    (G + 'read_uai_file', 'ReadUai', dict(trace=['UaiNetwork::read_file'])),
])

o = dict(opts={'prim': False}, rw=paraminv)
add('param', 'param', [(PP + a, b, o) for a, b in [
    ('PsddParameter()', 'Zero'), ('PsddParameter(double)', 'Make'), ('CreateFromDecimal', 'FromDecimal'), ('CreateFromLog', 'FromLog'),
    ('operator+', 'Plus'), ('operator/', 'Over'), ('operator*', 'Times'), ('operator+=', 'PlusEq'), ('operator/=', 'OverEq'),
    ('operator*=', 'TimesEq'), ('operator==', 'Eq'), ('operator!=', 'Ne'), ('operator<', 'Lt'), ('operator>', 'Gt'),
    ('parameter', 'Log'), ('hash_value', 'Hash')]])

CSV = ['CsvParser_new', 'CsvParser_getFields', 'CsvParser_getNumFields']
CSVT = ['CsvParser_destroy_row', 'CsvParser_destroy']
add('cnf', 'io', [
    ('CNF::CNF(const char *)', 'CnfFile'),
    ('CNF::CNF(const std::vector<std::vector<long>> &)', 'CnfClauses'),
    ('CNF::clauses', 'CnfGet'),
    ('CNF::Compile', 'CnfCompile', dict(opaque=['vtree_util::VariablesUnderVtree', 'vtree_util::CopyVtree(vtree_t *, const std::unordered_map<long, long> &)', M + 'ConvertSddToPsdd'])),
])
add('uai', 'io', [
    ('UaiNetwork::UaiNetwork(unsigned long, unsigned long, int, std::vector<std::vector<unsigned long>>, std::vector<std::vector<PsddParameter>>)', 'UaiMake'),
    ('UaiNetwork::read_file', 'UaiRead'),
    ('UaiNetwork::read_file', 'UaiRead', dict(opts={'noexit': True}, label='UaiReadWhole')),
    ('UaiNetwork::var_size', 'UaiVariables'),
    ('UaiNetwork::factor_size', 'UaiFactors'),
    ('UaiNetwork::network_type', 'UaiType'),
    ('UaiNetwork::factor_scopes', 'UaiScopes'),
    ('UaiNetwork::params', 'UaiTables'),
])
add('data', 'io', [
    ('BinaryData::data_size', 'DataSize'),
    ('BinaryData::variable_size', 'DataVariables'),
    ('BinaryData::set_variable_size', 'DataSetVariables'),
    ('BinaryData::data', 'DataGet'),
    ('BinaryData::AddRecord', 'DataAdd'),
    ('BinaryData::CalculateEntropy', 'DataEntropy'),
    ('BinaryData::ReadFile', 'DataRead', dict(opaque=CSV, trace=CSVT, stream=['CsvParser_getRow'])),
    ('BinaryData::WriteFile', 'DataWrite'),
    ('use::FreshData', 'FreshData'),
    ('use::AddTwice', 'AddTwice'),
])

def make(name):
    fn, ref, sp, k, public = OBS[name]
    return Ob(fn, ref, sp, **k)
