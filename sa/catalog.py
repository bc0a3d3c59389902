"""The properties: text, anchors, and which obligations and rules decide each."""
VG = 'value-graph equivalence with a reference definition (static, no solver)'
NODE = 'src/psdd_node.cpp'
MGR = 'src/psdd_manager.cpp'
UNI = 'src/psdd_unique_table.cpp'
PAR = 'src/psdd_parameter.cpp'

SER = ['ser']
LEAF = ['topnode', 'litnode']
KEEP = LEAF + ['conf']
TRUE = ['true', 'vser']
NORM = ['norm'] + TRUE

CAT = []


def P(id, title, statement, groups, over=('inputs',), text='', why='', files=(), mech=(), observe=(), rules=(), items=None, technique=VG, note=None, na=None, state=()):
    CAT.append(dict(id=id, title=title, statement=statement, groups=list(groups), over=list(over), text=text, why=why, files=list(files),
                    mech=list(mech), observe=list(observe), rules=list(rules), items=items, technique=technique, note=note, na=na, state=list(state)))


P('C01', 'Evidence probability is the circuit\'s value',
  'For every PSDD, every set of observed variables and every assignment, the evaluated probability is the one the circuit defines: a literal '
  'node is 1 unless an observed value contradicts it and then 0; a free-variable node gives the parameter of the observed value, or 1 when '
  'unobserved; a decision node sums prime times sub times parameter over all its elements. Evaluating a root node and evaluating its '
  'serialized list give the same number.',
  ['eval', 'ser', 'nodeacc', 'param'],
  text='every PSDD (any size, vtree and parameters), every observation mask and every assignment to the observed variables',
  why='The tests evaluate a handful of circuits of up to a few variables; the guarantee is over every circuit, mask and assignment.',
  files=[NODE, PAR], mech=[('bottom-up evaluation over the reversed serialization', NODE + ': psdd_node_util::Evaluate')],
  observe=['value returned by psdd_node_util::Evaluate'])

P('C02', 'Marginals are the exact normalised per-variable masses',
  'For every PSDD, the marginal query returns, for exactly the variables the PSDD mentions, the pair (probability false, probability true) obtained by '
  'pushing the root\'s unit mass down through every element parameter (shared nodes accumulate the mass of all their parents) and '
  'normalising each variable\'s pair.',
  ['marg', 'ser', 'nodeacc', 'param'],
  text='every PSDD given parents-first, including circuits with shared nodes and zero parameters',
  why='No test exercises the marginal query on circuits with several shared parents and mixed node kinds; it must hold for every circuit.',
  files=[NODE], mech=[('top-down derivative pass', NODE + ': psdd_node_util::GetMarginals')], observe=['map returned by psdd_node_util::GetMarginals'])

P('C03', 'MPE returns a maximal assignment and its probability',
  'For every PSDD, the most-probable-explanation query returns the maximum over the circuit of the product of chosen parameters '
  'together with an assignment that attains it, obtained by following the maximising element at every decision node and the larger '
  'parameter at every free-variable node.',
  ['mpe', 'ser', 'nodeacc', 'param'],
  text='every PSDD, every combination of parameters including ties and zeros',
  why='The tests check single small circuits; the argmax bookkeeping must be right for every shape and parameter vector.',
  files=[NODE], mech=[('bottom-up maximisation and top-down trace', NODE + ': psdd_node_util::GetMPESolution')],
  observe=['pair returned by psdd_node_util::GetMPESolution'])

P('C04', 'Model count and size are exact',
  'For every PSDD, the model count is the exact arbitrary-precision number of assignments in its support (two for a free variable, one for '
  'a literal, sum over elements of prime count times sub count for a decision), and the size is the number of free-variable nodes '
  'plus, for every distinct decision node, its number of elements minus one.',
  ['count', 'ser'],
  text='every PSDD, including counts beyond 64 bits',
  why='Counts in the tests fit in a machine word and come from a few circuits.',
  files=[NODE], mech=[('bottom-up count', NODE + ': psdd_node_util::ModelCount'), ('size', NODE + ': psdd_node_util::GetPsddSize')],
  observe=['psdd_node_util::ModelCount, GetPsddSize'])

P('C05', 'All consistency queries decide support membership',
  'For every PSDD and every partial assignment, each consistency query (on a list with an observation mask, on a root, recursively on a '
  'partial map, on a total assignment, and by activation marking) answers true exactly when some assignment in the support '
  'agrees with every observed value: a literal must not be contradicted, a free-variable node never blocks, a decision node needs one element whose prime '
  'and sub are both consistent.',
  ['consist', 'ser', 'nodeacc'],
  text='every PSDD, every mask and partial assignment',
  why='Tests sample a few assignments on small circuits; the forms must agree for all.',
  files=[NODE], mech=[('bottom-up and recursive consistency', NODE + ': psdd_node_util::IsConsistent, PsddNode::IsConsistent, SetActivationFlag')],
  observe=['return value of the IsConsistent forms', 'activation flags after SetActivationFlag'])

P('C06', 'Product of two PSDDs is the normalised pointwise product',
  'For every two PSDDs over the same vtree, multiplication returns a PSDD of the normalised pointwise product and the constant that '
  'was divided out, and returns no node with constant zero when the supports are disjoint. Every pair of elements contributes with weight '
  'parameter times parameter times the constants of its prime and sub products, pairs whose prime or sub product is empty are dropped, and '
  'the kept weights of each decision node are divided by their sum.',
  ['multiply', 'param', 'conf', 'topnode', 'litnode'], rules=['multiply_memo', 'multiply_kept'],
  text='every pair of PSDDs over one vtree with non-zero parameters',
  why='The tests multiply one or two fixed pairs; the recursion, memo table and renormalisation must be right for every pair.',
  files=[MGR, UNI], mech=[('recursive product with memo', MGR + ': PsddManager::Multiply')], observe=['pair returned by PsddManager::Multiply'])

P('C07', 'Learning gives the smoothed maximum-likelihood parameters',
  'For every structure, complete weighted-free data set and smoothing value, the learned PSDD has the same support structure and each parameter equals '
  '(number of examples that reach the node and take the branch, plus the smoothing value) divided by the sum of these over the branches of '
  'the node; an example reaches a child exactly through the element whose prime and sub it satisfies. Learning leaves no counts or per-example values behind.',
  ['learn', 'counts', 'ser', 'conf', 'topnode', 'litnode', 'param', 'nodeacc'], rules=['word_fields'],
  text='every structure, data set and smoothing parameter',
  why='Tests learn from one tiny data set; the counting over shared nodes must hold for every data set and structure.',
  files=[MGR, NODE], mech=[('batched counting and re-parameterisation', MGR + ': PsddManager::LearnPsddParameters')],
  observe=['parameters of the PSDD returned by PsddManager::LearnPsddParameters', 'data counts and batched values afterwards'])

P('C08', 'Random parameters are normalised and keep the structure',
  'Sampling parameters for one or several PSDDs returns, in the order of the given roots, PSDDs of the same structure in which every node\'s parameters '
  'are the drawn numbers of that node divided by their sum, with one draw for each element and two for each free-variable node.',
  ['psample', 'ser', 'conf', 'topnode', 'litnode', 'param'],
  over=('inputs', 'histories'), text='every list of PSDDs and every sequence of numbers the generator delivers',
  why='Tests use one generator sequence and one structure.',
  files=[MGR], mech=[('per-node draw and normalisation', MGR + ': PsddManager::SampleParametersForMultiplePsdds')],
  observe=['parameters of the returned nodes'])

P('C09', 'Drawing an assignment follows the circuit\'s distribution',
  'Drawing from a PSDD sets exactly the variables of positive literals met, sets a free variable exactly when the uniform number, rescaled to the unit interval, is below its '
  'true parameter, and at a decision node takes the first element whose cumulative parameter exceeds the rescaled uniform number, then draws from both its prime and its '
  'sub.',
  ['dsample', 'nodeacc', 'param'],
  over=('inputs', 'histories'), text='every PSDD and every stream of uniform numbers of any generator range',
  why='A statistical test of one circuit cannot settle the distribution for every circuit and generator range.',
  files=[NODE], mech=[('inverse-CDF draw', NODE + ': PsddDecisionNode::DirectSample, PsddTopNode::DirectSample')],
  observe=['bits set by DirectSample'])

P('C10', 'An SDD becomes a PSDD with the same support',
  'For every SDD and target vtree position, conversion yields a PSDD whose elements are exactly the SDD elements with a satisfiable sub, each '
  'prime and sub padded with true nodes to the vtree position it must have, with free-variable nodes wherever the SDD leaves a variable '
  'unconstrained, literals translated to the target vtree\'s variables with their sign; the false SDD yields no PSDD and the true SDD yields the true PSDD of that vtree. The '
  'SDD vtree\'s scratch data is cleared afterwards.',
  ['convert', 'fromsdd', 'norm', 'true', 'vser', 'topnode', 'litnode', 'conf', 'vtree'], rules=['sdd_kept'],
  text='every SDD (any number of nodes and elements), vtree and variable mapping',
  why='Tests convert a few formulas over four variables; trimming and compression patterns are unbounded.',
  files=[MGR], mech=[('bottom-up conversion', MGR + ': PsddManager::ConvertSddToPsdd, PsddManager::FromSdd')],
  observe=['PSDD returned by ConvertSddToPsdd and FromSdd'])

P('C11', 'A PSDD\'s support is recovered exactly as an SDD',
  'Converting a PSDD back yields the SDD that is the disjunction over elements of the conjunction of prime and sub, with literals renamed by the given variable map with their sign kept '
  'and free-variable nodes becoming true.',
  ['tosdd', 'ser', 'nodeacc'],
  text='every PSDD and every injective variable map',
  why='Tests check model counts on a few circuits only.',
  files=[NODE], mech=[('bottom-up apply', NODE + ': psdd_node_util::ConvertPsddNodeToSddNode')], observe=['SDD returned'])

P('C12', 'Loading a PSDD into a manager copies the distribution',
  'Loading a PSDD from any manager with a conforming vtree yields in the target manager a PSDD with the same structure and the same parameters, every node carrying the requested '
  'flag, lifted to the requested vtree node by padding with true nodes only.',
  ['load', 'norm', 'true', 'vser', 'ser', 'conf', 'topnode', 'litnode'],
  text='every PSDD, source manager, target vtree node and flag',
  why='Tests load one circuit; all node kinds, orders and flags must be preserved.',
  files=[MGR], mech=[('bottom-up re-registration', MGR + ': PsddManager::LoadPsddNode')], observe=['PSDD returned by LoadPsddNode'])

P('C13', 'PSDD files round-trip',
  'Writing a PSDD produces a file that lists every node once, children before parents, under the documented syntax with the false parameter before the true one for free-variable lines; reading the file resolves '
  'each line\'s identifiers to the nodes read before and rebuilds the same nodes with the same parameters, and the result is the node of the last line.',
  ['write', 'read', 'ser', 'conf', 'topnode', 'litnode', 'nodeacc', 'param'],
  text='every PSDD and every well-formed file',
  why='One round trip of one circuit does not settle field order, ids and node kinds in general.',
  files=[NODE, MGR], mech=[('writer', NODE + ': psdd_node_util::WritePsddToFile'), ('reader', MGR + ': PsddManager::ReadPsddFile')],
  observe=['file content', 'PSDD returned by ReadPsddFile'])

P('C14', 'One node per content: the unique table is canonical',
  'Asking a manager for a node twice with the same content (same vtree position and flag, and the same literal, or variable and pair of parameters, or list of primes, subs and parameters) '
  'returns the same node object, and nodes that differ in any of these are never merged, whatever order they were created in. A new node gets the next node index, '
  'the index is not consumed when an existing node is returned, and constructing a node records exactly the content it was given.',
  ['ctor', 'nodeeq', 'nodeacc', 'topnode', 'litnode', 'conf', 'param'], rules=['unique_order', 'unique_find', 'word_fields'],
  over=('inputs', 'histories'), text='every sequence of node creations, element lists of any length, and flags',
  why='Merging or splitting errors show only for particular pairs of contents (equal prefixes, same primes with other parameters, other flags); tests create a handful of nodes.',
  files=[UNI, NODE, MGR], mech=[('ordered set per vtree position', UNI + ': PsddUniqueTableImp::GetUniqueNode'), ('ordering of node contents', UNI + ': PsddUniqueTableSetFunctional')],
  observe=['pointer returned by GetPsddTopNode, GetPsddLiteralNode, GetConformedPsddDecisionNode', 'node indices'],
  technique=VG + '; order-axiom decision on the comparison\'s decision diagram',
  state=[('unique tables', 'registered nodes by kind and vtree position', UNI)])

P('C15', 'Collecting unused nodes keeps exactly what is reachable',
  'After collecting with a list of roots, a manager still returns the original object for every node reachable from any of those roots and has forgotten every other node, for all three kinds of nodes; '
  'collecting by flag keeps exactly the nodes that carry one of the given flags. The sweep never touches an entry it has already erased.',
  ['covered', 'ser'], rules=['gc_sweep', 'erased_iterators'],
  over=('inputs', 'histories'), text='every content of the tables, every list of roots and every set of flags',
  why='No test collects nodes (the code is marked as untested); errors show only when particular kinds of nodes survive or die.',
  files=[UNI, NODE, MGR], mech=[('mark and sweep over the unique tables', UNI + ': DeleteUnusedPsddNodes, DeletePsddNodesWithoutFlagIndexes')],
  observe=['identity of nodes created after PsddManager::DeleteUnusedPsddNodes'],
  technique=VG + '; typestate of table iterators',
  state=[('unique tables', 'registered nodes by kind and vtree position', UNI)])


P('C16', 'Queries leave no scratch data behind',
  'After any query or transformation that uses the per-node scratch slot or counters (marginals, MPE, writing, loading, sampling parameters, learning, conversion), '
  'the scratch slots of every node it visited and the scratch data of every vtree node it touched are back at zero and no per-node counter is left set, so that a following operation starts clean.',
  ['marg', 'mpe', 'write', 'load', 'psample', 'learn', 'convert', 'fromsdd', 'vtree', 'mkmanager', 'counts', 'ser'], items=r'^field|^exit',
  over=('inputs', 'histories'), text='every sequence of operations on shared nodes',
  why='Tests run one operation per fixture; stale scratch shows only in particular sequences.',
  files=[NODE, MGR], mech=[('reset loops at the end of each operation', NODE + ', ' + MGR)],
  observe=['user_data, data counts, batched values, vtree data after each call'],
  state=[('scratch slot', 'per-node user data used by one pass', 'include/psdd/psdd_node.h')])

P('C17', 'Serialization visits every reachable node once, parents first',
  'Serializing a root lists every node reachable from it exactly once with every node before its children, and no other node; the set of covered nodes of several roots is the '
  'union of what is reachable from each.',
  ['ser', 'covered', 'vser'],
  text='every PSDD graph with sharing, every list of roots where no root is reachable from another',
  why='Order and uniqueness on shared graphs depend on the queue discipline and hold or fail only on particular sharing patterns.',
  files=[NODE], mech=[('traversal with visited set', NODE + ': psdd_node_util::SerializePsddNodes')], observe=['list returned'])

P('C18', 'Log-space parameter arithmetic is exact',
  'A parameter made from a number represents that number; addition, multiplication and division of parameters (plain and compound) represent the sum, product and '
  'quotient of the represented numbers with zero as neutral element of addition and no cancellation to infinity for large or tiny magnitudes; equality and order agree with the represented values at the stored '
  'precision, and equal-valued parameters always carry equal hashes.',
  ['param'],
  text='every pair of probabilities including zero and values far below the smallest double',
  why='Tests use a few ordinary decimals; the extremes and the compound forms are never exercised.',
  files=[PAR], mech=[('log-sum-exp', PAR + ': PsddParameter::operator+')], observe=['parameter(), hash_value(), comparison results'])

P('C19', 'Vtree utilities preserve structure and variables',
  'Copying a vtree (optionally renaming variables) reproduces its shape and leaf order; the variables under a vtree are exactly those of its leaves; projecting a vtree on a set of variables removes exactly the other leaves and the internal nodes '
  'left with one child while keeping order; the sub-vtree of a variable set is the lowest node containing all of them; leaf traversal is left to right.',
  ['vtree', 'vser', 'mkmanager'],
  text='every vtree and variable subset',
  why='Tests use balanced vtrees of a few variables only.',
  files=[NODE, MGR], mech=[('vtree recursion', NODE + ': vtree_util')], observe=['vtrees and variable lists returned'])

P('C20', 'Padding with true nodes changes no distribution',
  'The true node of a vtree is the PSDD in which every leaf is a free-variable node with two unit weights and every internal node has a single element of weight one; lifting a node to an '
  'ancestor vtree node adds, at each step up, exactly one single-element decision of weight one with the true node of the sibling on the other side, in the order of the vtree.',
  ['true', 'norm', 'vser', 'topnode', 'conf'], rules=['norm_kept'],
  text='every vtree, every node and ancestor position, every flag and cache state',
  why='Which side and how many levels are padded varies with the vtree; tests cover one right-linear and one balanced tree.',
  files=[MGR], mech=[('normalisation loop', MGR + ': PsddManager::NormalizePsddNode'), ('true nodes', MGR + ': PsddManager::GetTrueNode')],
  observe=['nodes returned by GetTrueNode and NormalizePsddNode'])

P('C21', 'Nodes are registered at the vtree node they belong to',
  'A free-variable or literal node is registered at the leaf of its variable with the requested sign, flag and (true, false) parameters; a decision node is registered at the lowest common ancestor of its '
  'first prime and sub, with its primes lifted to the left child and its subs to the right child and parameters kept with their elements.',
  ['topnode', 'litnode', 'conf', 'mkmanager', 'norm', 'true', 'vser'], rules=['conf_kept'],
  text='every variable, literal, list of primes, subs and parameters',
  why='Misplacement shows only when prime and sub sit below the children of the common ancestor.',
  files=[MGR], mech=[('registration', MGR + ': GetPsddTopNode, GetPsddLiteralNode, GetConformedPsddDecisionNode')],
  observe=['vtree node, children and parameters of the nodes returned'])


CNFF, UAIF, DATF, PGMF = 'src/cnf.cpp', 'src/uai_network.cpp', 'src/binary_data.cpp', 'src/pgm_compiler.cpp'

P('C22', 'A CNF is read and compiled to exactly its models',
  'Reading a CNF file yields its clauses in order, each with its literals up to the terminating zero, ignoring comment, problem and blank lines; a file that cannot be opened ends the program. Compiling a CNF into a manager '
  'yields the PSDD of the conjunction over its clauses of the disjunction of their literals, every literal keeping its variable and sign, over all the variables of the '
  'manager\'s vtree.',
  ['cnf', 'convert', 'vtree', 'vser'],
  text='every CNF file and clause list over the variables of the manager\'s vtree',
  why='Tests compile a few clauses; empty clauses, negative literals and vtrees whose variables are not numbered in order are unbounded in combination.',
  files=[CNFF, MGR], mech=[('reader', CNFF + ': CNF::CNF'), ('clause by clause apply over a renumbered vtree', CNFF + ': CNF::Compile')],
  observe=['CNF::clauses', 'PSDD returned by CNF::Compile'])

P('C23', 'Data sets count every record exactly',
  'A data set maps each distinct record to the number of times it was added or read, its size is the total number of records and starts at zero; reading a CSV file replaces the contents with one record per row in which variable i is true exactly when the i-th field '
  'is a non-zero number; writing lists every record as often as it was counted with its variables in order; the entropy is the sum over records of relative frequency times its logarithm.',
  ['data'],
  over=('inputs', 'histories'), text='every sequence of records and every CSV file of numbers',
  why='Tests read one file; repeated rows, repeated reads and counts are never checked in combination.',
  files=[DATF, 'include/psdd/binary_data.h'], mech=[('counted records', DATF + ': BinaryData::AddRecord, ReadFile, WriteFile')],
  observe=['BinaryData::data, data_size, variable_size', 'file written'],
  state=[('records', 'multiset of assignments with its total', 'include/psdd/binary_data.h')])

P('C24', 'A UAI network file is read faithfully',
  'Reading a UAI file yields its network type, its number of variables and factors, the scope of every factor with variables numbered from one in file order, and the table of every factor in file order however '
  'its entries are broken into lines; a file that ends before a table is complete ends the program.',
  ['uai', 'param'],
  text='every UAI file of binary variables, any number of blank lines and line breaks between and within tables',
  why='Tests read one network file; the layout of tables over lines varies without bound.',
  files=[UAIF], mech=[('reader', UAIF + ': UaiNetwork::read_file')], observe=['accessors of UaiNetwork after read_file'])

P('C25', 'A factor compiles to its normalised table',
  'Compiling a factor whose variables lie along the right spine of the vtree, and whose table is not all zero, yields the PSDD that gives every assignment its table entry divided by the sum of the table, padded to '
  'the root of the vtree, together with that sum; entries that are zero are outside the support. The least significant bit of a table index is the last variable of the scope.',
  ['factor', 'topnode', 'litnode', 'conf', 'norm', 'true', 'vser', 'param'],
  text='every table with at least one positive entry, every scope along the right spine of the vtree and any order of the scope relative to the vtree',
  why='Tests compile one small network; the order of scope and vtree, zero patterns and sizes are unbounded.',
  files=[PGMF], mech=[('variable by variable from the last in vtree order', PGMF + ': PgmCompiler::compile_factor')], observe=['pair returned by compile_factor'])

P('C26', 'A network compiles to the product of its factors',
  'Each way of compiling a network (one after another, pairwise, or along the vtree) multiplies every factor\'s PSDD exactly once and returns the product together with the product of all normalising constants, of factors and of '
  'multiplications; a collection of unused nodes in between keeps every intermediate result that is still to be multiplied.',
  ['network', 'pgminit', 'multiply', 'covered'], rules=['multiply_memo'],
  over=('inputs', 'histories'), text='every satisfiable network with at least one factor, every vtree and every collection frequency',
  why='Tests compile one network with one strategy; the order, the constants and the collections interact over the whole run.',
  files=[PGMF, MGR], mech=[('ordering and pairing of products', PGMF + ': PgmCompiler::compile_network, compile_network_dc, compile_network_with_vtree')],
  observe=['pair returned by the compile functions', 'manager and network set up by init_psdd_manager, read_uai_file'])


P('C27', 'Generated vtrees contain every network variable exactly once',
  'Each way of generating a vtree for a network (min-fill, hypergraph bisection, jointree) returns a vtree whose leaves are exactly the network\'s variables, each once.',
  [], text='every network', why='Tests generate a vtree for one or two networks.',
  files=['src/minfill_vtree.cpp', 'src/hypergraph_decomposition_vtree.cpp', 'src/jointree_vtree.cpp'],
  mech=[('recursive assembly', 'VtreeFromGraph, CreateVtree')], observe=['vtree returned by ConstructVtree'],
  na='The vtree is assembled from an elimination order, a bisection or a jointree that the third-party htd and KaHyPar libraries hand over at run time; their sources are not '
     'in the repository (prebuilt or absent), and that the order is a permutation and the parts a partition is their promise, which no analysis of this source can establish.')

P('C28', 'Results stay within rounding error of the exact value',
  'For every circuit the number computed by a query differs from the exact value only by the rounding error of the double operations along the circuit.',
  [], text='every circuit, parameter vector and depth', why='The error of a test circuit says nothing about deep circuits.',
  files=[PAR, NODE], mech=[('doubles in log space', PAR)], observe=['values returned by queries'],
  na='The error depends on run-time magnitudes and depths of unbounded circuits; a sound static bound (interval or affine error propagation over arbitrary recursion) is vacuous here. The '
     'checks treat doubles as reals, with the cases rounding cannot blur (zero, infinities, cancellation in log space) decided under C18.')

P('C29', 'Every node is released exactly once',
  'Every node a manager creates is released exactly once, at the latest with its manager, and no released node is used.',
  [], over=('histories',), text='every sequence of operations and collections', why='Leaks and dangling nodes need particular histories.',
  files=[UNI, MGR], mech=[('ownership of nodes by the unique table', UNI)], observe=['allocations'],
  na='Which nodes a table owns is decided by run-time identity of shared pointers, and the library does not set out to free them: collected nodes are dropped from the tables and never deleted, '
     'so there is no guarantee in the code to decide. What a sweep keeps and erases is decided under C15.')


NOTE = ('Definite for the obligations it decides: every path of the analysed function, with loops summarised as folds and recurrences, was normalised to a '
        'value graph and found identical to that of the reference definition. A difference is reported only when it is definite; code the '
        'normaliser cannot relate is left undecided (listed in the evidence) and stays quiet. Trusts the clang front end, the models of the C++ standard library, '
        'GMP and the SDD package, real arithmetic for doubles, and the reference definitions in /verif/spec.')
