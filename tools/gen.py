"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, V, K = 'srg/solver.py', 'srg/srg.py', 'srg/sorter.py'
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


TV = 'abstract interpretation to value numbers, compared with the specification at valuations (terms evaluated, program never run)'
LIT = 'static evaluation of the literals in the syntax tree'
FX = 'effect and alias analysis on the abstract heap'

p('C01', 'Every catalogued matrix is the adjacency matrix of its strongly regular graph',
  'For every shipped catalogue entry (v,k,l,u), each listed solution is a v by v symmetric 0/1 matrix with zero diagonal in which every row has k ones, every two adjacent vertices have l common neighbours and every two non-adjacent ones have u. The parameters themselves satisfy k(k-l-1) = u(v-k-1).',
  ['inputs'], 'all catalogue modules and all matrices in them', 'the tests load a few entries and compare with the solver on small parameters; hundreds of matrices are never looked at',
  ['srg/database'], [('literal matrices', 'srg/database/problem_*.py')], LIT, 'every module and every matrix, complete')
p('C02', 'Catalogue entries list each graph once, starting with the canonical first rows',
  'Within one catalogue entry no two listed matrices are equal, and every listed matrix starts with the two canonical rows: vertex 0 adjacent to vertices 1..k, vertex 1 adjacent to 0, to the next l of those, and to the first k-l-1 of the others. So an entry can be compared with what the enumeration emits.',
  ['inputs'], 'all catalogue modules and all pairs of matrices in one', 'a duplicate or a relabelled matrix makes counts and comparisons wrong without any test looking at that entry',
  ['srg/database'], [('literal matrices', 'srg/database/problem_*.py')], LIT, 'every module and every pair, complete')
p('C03', 'Catalogue lookup returns exactly the entry of the given parameters',
  'Listing the catalogue names every shipped entry and nothing else, the four numbers read back from a name are those in the name, in order v, k, l, u, and looking up (v,k,l,u) returns the whole solutions list of the entry of exactly these parameters and fails if there is none. The parameters recorded inside an entry are those of its name.',
  ['inputs'], 'all entries, all parameter quadruples', 'tests look up a handful of quadruples; a permuted or shortened lookup shows only on others',
  ['srg/database/__init__.py'], [('get_solutions', 'srg/database/__init__.py'), ('extract_vklu', 'srg/database/__init__.py'), ('list_problems', 'srg/database/__init__.py')], TV, 'lookups compared at many quadruples and names; entries complete')
p('C04', 'Both command lines resolve and dispatch as documented',
  '"python -m srg v k l u" and "python -m srg.database [list|draw] [v k l u]" import and resolve every name they use. The database command with no parameters lists the entries, with "list v k l u" prints the solutions of these parameters, with "draw v k l u" draws them, and any other command exits with an error; the solver command runs the search for exactly the four given numbers in their order.',
  ['inputs', 'configurations'], 'all argument vectors', 'the tests never start either command',
  ['srg/__main__.py', 'srg/database/__main__.py', 'srg/pprint.py'], [('argument handling', 'srg/__main__.py'), ('dispatch', 'srg/database/__main__.py')], 'import and name resolution over the syntax tree; abstract interpretation of both command modules with symbolic arguments', 'all paths of both modules; decided per path at argument valuations')
p('C05', 'Infeasible parameters are refused before anything is computed or shown',
  'The parameter check accepts (v,k,l,u) exactly when k(k-l-1) = u(v-k-1) and otherwise raises. Both commands apply it to the given numbers before any search, lookup or drawing starts.',
  ['inputs'], 'all integer quadruples, both commands', 'a check that is skipped or slightly wrong shows only for particular infeasible quadruples',
  ['srg/utils.py', 'srg/__main__.py', 'srg/database/__main__.py'], [('assert_srg', 'srg/utils.py')], TV, 'all paths of both commands; the check compared at thousands of quadruples')
p('C06', 'The solver command prints every solution, once, whole and in sorted order',
  'Every matrix the search emits is printed exactly once and completely, never abbreviated, whatever its size, in the ascending lexicographic order of its upper triangle. Nothing the search did not emit is printed as a solution.',
  ['inputs'], 'all parameter quadruples, result counts and matrix sizes', 'the tests never run the command, and small matrices are printed whole anyway',
  ['srg/__main__.py', 'srg/sorter.py', 'srg/pprint.py'], [('print loop', 'srg/__main__.py'), ('sort', 'srg/sorter.py')], TV, 'all paths of the command module')
p('C07', 'The search starts from the canonical two rows of the given parameters',
  'For all feasible parameters the start of the search is the 2 by v 0/1 matrix whose first row has ones exactly at 1..k and whose second row has ones exactly at 0, at 2..l+1 and at k+1..2k-l-1. Row 0 and row 1 therefore have k ones each and l in common.',
  ['inputs'], 'all v, k, l, u', 'tests use a few parameter sets; off-by-one slips depend on l and k',
  [S], [('_seed', S)], TV, 'term compared at every feasible (v,k,l) up to v=14 and samples up to 300')
p('C08', 'The system for the next row admits exactly the rows the partial graph admits',
  'From any partial adjacency matrix of R rows, the linear system for row R has as its solutions exactly the 0/1 completions of that row which give vertex R degree k and l or u common neighbours with every earlier vertex, l if adjacent and u if not. The right hand sides and the quota are exact whatever the size.',
  ['inputs'], 'all partial matrices of all parameters', 'the tests see the systems that occur for a few parameters only; a wrong count may cancel there',
  [V], [('from_matrix', V), ('vklu', V)], TV, 'solution spaces compared exactly (span of equations over Q) at prefixes of strongly regular and perturbed graphs')
p('C09', 'A row is appended symmetrically and only square matrices are emitted',
  'Extending a partial matrix with a solution of its system gives a new matrix with one more row, whose earlier entries mirror the columns above, whose diagonal entry is 0 and whose remaining entries are the solution in order; the old rows stay as they are, and a solution of the wrong length is refused. A matrix counts as complete exactly when it has as many rows as columns, and exactly the complete ones are emitted.',
  ['inputs', 'histories'], 'all partial matrices and all solutions', 'which partial matrices occur depends on the parameters',
  [V, S], [('append_and_return_new', V), ('solved', V), ('solve', S)], TV, 'terms compared at random matrices; the search loop compared with uninterpreted search trees')
p('C10', 'Assigning unknowns keeps value, right hand side, quota and capacity in agreement',
  'Whenever unknowns are given values (capacity zero, a single unknown left in an equation, or a branch), every right hand side drops by exactly the contribution of the assigned unknowns, the remaining quota and capacities are those of the unassigned unknowns, and the value is recorded at the bucket of its unknown. So the equations left over plus the recorded values describe the same solutions as before.',
  ['inputs', 'histories'], 'all systems, with any assigned buckets in between', 'a wrong bucket or a stale right hand side shows only on systems of a particular shape',
  [S, 'srg/bounds.py', 'srg/fork.py'], [('zero_in_b', S), ('only_1_element_in_row', S), ('fork_enum', S)], TV, 'value numbers of all components on all paths; residual systems compared exactly')
p('C11', 'Merging identical columns loses and invents nothing',
  'Unknowns with identical columns, and only those, are merged into one whose capacity is the sum of theirs; the merged unknown covers exactly their positions and the partial answer keeps the others. Expanding a full answer gives the row with, in every bucket, the recorded number of ones first and zeros after.',
  ['inputs'], 'all systems, any number of rows and columns, adjacent or scattered duplicates', 'the tests contain small systems; key collisions need many rows, wrong positions need particular patterns',
  [S, 'srg/unique.py', V], [('reduce_col', S), ('_encode', 'srg/unique.py'), ('binarize', V)], TV, 'value numbers at random systems including ones beyond 64 rows; packing proved injective by evaluation')
p('C12', 'Row elimination keeps the solution set',
  'Replacing the equations by differences of one another, dropping empty and repeated ones, leaves exactly the same non-negative integer solutions within the capacities, with entries staying 0/1 and right hand sides non-negative. Packing rows into keys and unpacking them loses nothing at any width.',
  ['inputs'], 'all systems, any number of columns', 'an equation dropped or altered in a rare pattern is invisible on the tested problems',
  ['srg/gauss_elim.py', S], [('elim', 'srg/gauss_elim.py'), ('eliminate', S)], TV, 'one round of the elimination loop compared by exact solution sets (loop invariant), plus the whole step')
p('C13', 'Counts and packed keys are exact at every problem size',
  'No intermediate count, right hand side, capacity, packed row or packed column exceeds what its element type can hold, for problems of any size that fits in memory: more than 64 rows or columns, and counts of 128 and more.',
  ['inputs'], 'all systems with any number of rows, columns and any counts', 'every tested problem is small enough to fit whatever type is used',
  [V, 'srg/unique.py', 'srg/gauss_elim.py'], [('element types', V), ('_encode', 'srg/unique.py'), ('_encode', 'srg/gauss_elim.py')], 'element-type inference with value ranges evaluated at wide systems', 'every typed array on every path at wide valuations; packing round trip')
p('C14', 'A system or branch is given up only when it has no solution',
  'Whenever the search discards a partial matrix, a system or a branch as infeasible, that system has no solution; and a contradiction left in a reduced system (equation without unknowns and nonzero right hand side, value above capacity, capacities short of the quota) is detected rather than emitted.',
  ['inputs', 'histories'], 'all systems, feasible and infeasible', 'a check that is off by one discards a solution only when some capacity is met exactly',
  [S, 'srg/gauss_elim.py', V], [('raiseExceptionIfNotSolvableAfterwards', S), ('only_1_element_in_row', S), ('from_matrix', V)], TV, 'every raising path evaluated on solvable systems; contradictory systems must raise')
p('C15', 'The search visits every branch exactly once',
  'Branching on an unknown tries every value it can take in a solution, each exactly once. Every branch and every partial matrix is examined exactly once, all solutions of every system are collected, and every complete matrix reached is emitted exactly once, in whatever order.',
  ['inputs', 'histories'], 'all systems, all shapes of the search tree', 'a lost branch shows only if it held a solution the test counts',
  [S, 'srg/fork.py'], [('fork_enum', S), ('solve_question', S), ('advance / solve', S), ('enum', 'srg/fork.py')], TV, 'transition relation of both search loops compared with uninterpreted branching trees')
p('C16', 'Branches of the search share no state that later steps change',
  'The systems made by one branching, and a copy of a system and its original, share no array which a later step writes in place: working on one never changes another. A copy is equal to its original.',
  ['histories'], 'all branchings followed by all later step sequences', 'sharing corrupts a sibling only if it is taken up later, in a particular order',
  [S, V], [('fork_enum', S), ('copy', V)], FX, 'every yielded system and every copy against the components any step writes in place')
p('C17', 'Queries and transformations leave their arguments unchanged',
  'Building a system from a matrix, extending a matrix by a row, maximising, swapping, sorting, complementing, reducing repeated columns, eliminating and enumerating values do not change the matrix, vector or list they are given. Results are new objects that may be used further without the caller losing its data.',
  ['inputs'], 'all arguments of these operations', 'tests mostly look at the result, not at the argument afterwards',
  [V, K, 'srg/utils.py', 'srg/unique.py', 'srg/gauss_elim.py', 'srg/fork.py'], [('copies before writes', V)], FX, 'all paths of thirteen operations')
p('C18', 'Only infeasibility is swallowed; it ends only the branch it occurs in',
  'Inside the search the only exception ever caught is the one that reports infeasibility; every other error reaches the caller. Infeasibility of one branch or partial matrix never stops the others and never reaches the user.',
  ['inputs', 'histories'], 'all exceptions at all points of the search', 'tests do not inject errors, and a swallowed error just looks like fewer solutions',
  [S], [('except clauses', S)], 'exception-flow analysis over all handlers; search loops compared with branching trees with infeasible nodes', 'every handler in the package; uninterpreted trees')
p('C19', 'Every loop of the search makes progress, so the search ends',
  'One round of elimination leaves a smaller sum or stops, one branching leaves strictly fewer unknowns, one extension adds one row, and the repetition of steps stops as soon as nothing changes. So the search, and maximising a matrix, end on every input.',
  ['inputs', 'histories'], 'all systems and matrices', 'a test that ends says nothing about the inputs that do not',
  [S, 'srg/gauss_elim.py', K], [('fixpoint test', S), ('_elim', 'srg/gauss_elim.py'), ('fork_enum', S)], 'ranking arguments on loop summaries', 'each loop: the measure compared before and after a round at valuations')
p('C20', 'Maximising and swapping only relabel the vertices',
  'Maximising a symmetric 0/1 matrix, or swapping two indices, returns the matrix of the same graph under a relabelling of the vertices: symmetric, zero diagonal kept, isomorphic to the given one; swap exchanges exactly the two given indices. This holds for every graph, including ones with a vertex adjacent to all others or to none.',
  ['inputs'], 'all symmetric 0/1 matrices, all index pairs', 'tests use a few matrices; a row permuted without its column shows only on others',
  [K], [('AdjMat', K), ('swap', K)], TV, 'symbolic permutation terms evaluated on graphs of 2 to 7 vertices')
p('C21', 'Sorting is a permutation into lexicographic order of the upper triangle',
  'Sorting a list of matrices returns all of them, each as often as it was given, in ascending lexicographic order of their upper triangles read row by row, and does not alter them. The comparison is negative, zero or positive exactly as the first differing entry tells.',
  ['inputs'], 'all lists of matrices of equal size', 'a slip in comparing late entries needs matrices that agree before',
  [K], [('_cmp_srg_matrix', K), ('_encode', K), ('sort', K)], TV, 'terms at random lists with ties and late differences')
p('C22', 'Complement of a matrix and of parameters agree',
  'The complement parameters are (v, v-k-1, v-2-2k+u, v-2k+l), so complementing twice gives back the parameters; the complement of an adjacency matrix has a one exactly at distinct non-adjacent vertices and a zero diagonal.',
  ['inputs'], 'all parameters and all matrices', 'tests use some entries of the catalogue',
  ['srg/utils.py'], [('complement_vklu', 'srg/utils.py'), ('complement', 'srg/utils.py')], TV, 'the parameter terms by polynomial identity, matrices at valuations')
p('C23', 'Eigenvalues, multiplicities and determinant satisfy the spectral identities',
  'For every feasible parameter set the eigenvalues k, r, s with their multiplicities 1, f, g satisfy 1+f+g = v, k+fr+gs = 0, k^2+f r^2+g s^2 = vk, and the non-trivial ones are the roots of x^2-(l-u)x-(k-u). Except for conference parameters the eigenvalues are exact integers, and the determinant is always the exact product; conference parameters are recognised exactly by 2k+(v-1)(l-u) = 0.',
  ['inputs'], 'all feasible parameter sets', 'floating point is right on the small sets tests use',
  ['srg/utils.py'], [('eig', 'srg/utils.py'), ('determinant', 'srg/utils.py'), ('conference', 'srg/utils.py')], TV, 'float-exact evaluation of the terms at all feasible parameter sets up to a bound')
p('C24', 'The same parameters give the same output in every run and history',
  'What the search emits and prints depends on the parameters only: no randomness, clock, environment, hash order or object identity enters, and nothing is carried from one search to the next. So an enumeration repeated, or run after another one in the same process, gives the same list.',
  ['histories', 'configurations'], 'all runs, hash seeds and earlier calls', 'one process with one hash seed cannot show it',
  ['srg'], [('no shared state', 'srg/*.py')], 'taint analysis from nondeterministic sources; module-state analysis', 'every function of the package')
p('C25', 'Drawing writes one image per solution and nothing else',
  'Drawing (v,k,l,u) writes, for the i-th listed solution counted from 0, one image file srg_v_k_l_u_i.png showing exactly the v vertices and the edges of that matrix, prints its name, and writes no other file. The search and the other commands write no files at all.',
  ['inputs'], 'all entries and matrices', 'the tests never draw',
  ['srg/database/__init__.py'], [('draw', 'srg/database/__init__.py')], 'abstract interpretation with recorded library calls replayed on a model graph', 'all paths of draw; all call sites of the package for file effects')
p('C26', 'The combinatorial helpers are exact',
  'Placing a sum into bounded slots enumerates every tuple within the bounds that adds up to the sum, each once. Reducing consecutive equal columns and expanding with the returned counts gives back the matrix, and sorting equations by right hand side permutes equations and right hand sides together.',
  ['inputs'], 'all sums, bounds, matrices', 'these helpers are hardly tested',
  ['srg/partition.py', 'srg/unique.py', 'srg/gauss_elim.py'], [('enum', 'srg/partition.py'), ('reduce / expand', 'srg/unique.py'), ('sort', 'srg/gauss_elim.py')], TV, 'terms at random arguments against direct enumeration')
p('C27', 'An installed copy has every module and dependency its commands need',
  'Every package directory with modules is part of the distribution, and every third-party module the package imports is declared as a requirement. So an installed copy can run both documented commands.',
  ['configurations'], 'all package directories and imports', 'tests run from the source tree, where nothing is missing',
  ['setup.py', 'srg'], [('setup()', 'setup.py')], 'syntax-tree query over setup() and all imports', 'complete; two known findings')
p('C28', 'Systems and partial answers compare equal exactly when their state is equal',
  'Two systems compare equal exactly when their matrices, right hand sides, quotas, capacities and partial answers are all equal, and two partial answers exactly when their values, positions and lengths are. A difference in any single component, also in its shape, makes them unequal.',
  ['inputs'], 'all pairs of systems', 'tests compare a few equal ones; ignoring one component shows only for pairs differing in just it, and then stops the search early',
  [V], [('__eq__', V)], TV, 'comparison terms at equal pairs and pairs differing in one component')
COMP = 'composition of step rules: abstract interpretation to value numbers, compared with the specification at valuations'
p('C29', 'Every emitted matrix is a strongly regular graph with the given parameters',
  'For all feasible parameters, every matrix the search emits is a v by v symmetric 0/1 matrix with zero diagonal in which every row has k ones, every two adjacent vertices have l common neighbours and every two non-adjacent ones u.',
  ['inputs', 'histories'], 'all parameters, whole runs', 'end-to-end, only a few parameters are enumerable',
  [S, V, 'srg/gauss_elim.py', 'srg/unique.py', 'srg/bounds.py', 'srg/fork.py'], [('solve', S), ('from_matrix', V), ('append_and_return_new', V), ('solve_question', S)], COMP,
  'every link of the induction over rows and branches written out in DESIGN.md: seed, row system, each step, branching, expansion, appended row, both loops')
p('C30', 'Every strongly regular graph is isomorphic to an emitted matrix',
  'For all feasible parameters and every strongly regular graph with these parameters, some emitted matrix is isomorphic to it: every such graph that starts with the canonical rows and in which each row has the ones first among the columns that the earlier rows do not tell apart is itself emitted.',
  ['inputs', 'histories'], 'all parameters, all graphs', 'end-to-end, only a few parameters are enumerable',
  [S, V, 'srg/gauss_elim.py', 'srg/unique.py', 'srg/bounds.py', 'srg/fork.py'], [('solve', S), ('from_matrix', V), ('solve_question', S), ('fork_enum', S)], COMP,
  'every link of the induction over rows and branches written out in DESIGN.md; relabelling to the canonical rows is the argument of C07')
p('C31', 'The documented enumerations finish in seconds within bounded memory',
  'The documented example enumerations finish in seconds and the search never keeps more partial matrices than one level of the search tree.',
  ['inputs'], 'the documented parameter sets', 'timing varies by machine',
  [S], [('solve', S)], na='running time and memory of a backtracking search depend on run-time tree sizes that no static argument in reach bounds')


p('C32', 'Malformed systems and answers are refused, well-formed ones kept as given',
  'Making a system or a partial answer, or assigning one of its parts, fails when sizes disagree, when a right hand side, capacity or quota is negative, when positions do not start at 0, are not strictly ascending or reach the length, or when the number of unknowns differs from the number of columns of an assigned answer. Every well-formed one is accepted and reads back as given.',
  ['inputs'], 'all systems, answers and assigned values', 'tests build only well-formed systems',
  [V], [('constructors', V), ('setters', V)], TV, 'all paths of the constructors and setters at well-formed systems and at each way of spoiling them')
p('C33', 'What a partial answer or matrix says about itself is exact',
  'The widths of the buckets of a partial answer are the distances between consecutive positions up to its length, its unknown positions are exactly those without a value, in ascending order, and it has unknowns exactly if there is such a position; the default answer has one unknown per position. The parameters read back from a partial matrix that starts with the canonical rows, for a graph that is not complete, are those it was made for.',
  ['inputs'], 'all partial answers, all partial matrices', 'tests see the answers of a few systems',
  [V], [('quota / unknown_loc / unknown', V), ('vklu', V)], TV, 'terms compared at random partial answers and at prefixes of strongly regular graphs')
p('C34', 'The queries on a system that the steps rely on are exact',
  'Tightening lowers each capacity to the smallest right hand side of the equations its unknown occurs in, if that is smaller, and changes nothing else; the zero capacities found are exactly those; an unknown alone in some equation is reported exactly once with such an equation, and no other unknown is. Taking out a column or element returns it and the rest in order, and the splits of a quota into non-negative parts for one unknown and the others are exactly those the capacities allow.',
  ['inputs'], 'all systems', 'tests call these helpers rarely or never',
  ['srg/bounds.py', 'srg/fork.py'], [('lower_upper_bound', 'srg/bounds.py'), ('one_element_row_locs', 'srg/bounds.py'), ('enum', 'srg/fork.py')], TV, 'terms compared with the definitions at random systems')
p('C35', 'Tracing a step does not change what the step does',
  'A step of the search wrapped in the tracing decorator leaves a well-formed system exactly as the bare step does, returns what the step returns, including the branches of a branching, and lets the same exceptions through.',
  ['inputs'], 'all steps, all systems', 'tests never trace',
  ['srg/utils.py', V], [('debug', 'srg/utils.py'), ('_invariant_check', V)], TV, 'summaries of the wrapped and the bare step compared at random systems, for all five steps')
p('C36', 'No matrix is emitted or printed twice',
  'For all feasible parameters the matrices a search emits are pairwise different, and the solver command prints each of them once.',
  ['inputs', 'histories'], 'all parameters, whole runs', 'a repeated branch shows only on systems where it leads to a solution',
  [S, V], [('solve', S), ('fork_enum', S), ('reduce_col', S)], COMP,
  'branches differ in the value of one unknown, expansion and appending are injective, both loops take up every item once; written out in DESIGN.md')
p('C37', 'Every catalogued matrix is one that the search emits',
  'Every matrix listed in a catalogue entry (v,k,l,u) is emitted by the search started with exactly these parameters. It is a strongly regular graph of these parameters that starts with the canonical rows, and each of its rows has the ones first among the columns that the earlier rows do not tell apart, which is the form in which the search writes graphs.',
  ['inputs', 'histories'], 'all catalogue entries, all listed matrices', 'most entries take too long to enumerate in a test',
  [S, 'srg/database'], [('solve', S), ('literal matrices', 'srg/database/problem_*.py')], LIT + '; ' + COMP,
  'the form of every listed matrix is decided completely; that every graph of this form is emitted is the composition of C30')
p('C38', 'Complementary catalogue entries list the same graphs',
  'Whenever two different entries (v,k,l,u) and (v, v-k-1, v-2-2k+u, v-2k+l), complements of each other, are both shipped, every graph of one is, up to relabelling, the complement of a graph of the other.',
  ['inputs'], 'all pairs of complementary entries, all listed matrices', 'each entry may be valid on its own; only isomorphism across two entries shows that one lacks a graph',
  ['srg/database'], [('literal matrices', 'srg/database/problem_*.py')], LIT, 'every pair of complementary entries, complete (isomorphism decided by exhaustive search)')


p('C39', 'A catalogue entry lists each of its graphs in every form the search writes',
  'A catalogue entry lists, with each graph, every relabelling of it that the search writes: every one that starts with the canonical rows and in which each row has the ones first among the columns that the earlier rows do not tell apart. Excepted are the entries whose source says that only the first is listed.',
  ['inputs'], 'all catalogue entries, all relabellings of their graphs', 'the tests compare the listed matrices one by one with what the search gives, for small entries, and do not notice a missing one',
  ['srg/database'], [('literal matrices', 'srg/database/problem_*.py')], LIT, 'every entry, complete (all relabellings enumerated)')
p('C40', 'Texts show the whole state; printing and composing pass on what they get',
  'The text of a partial answer shows its values, positions and length, the text of a system every equation with its right hand side, the capacities, the quota and its answer, and the text of a partial graph its matrix. The coloured printing helpers print the text of their argument once, in the colour they are named after, passing further keywords on, and a composed function applies the last of its parts first.',
  ['inputs'], 'all systems, answers, partial graphs and texts (up to what numpy prints in full)', 'no test prints anything; a dropped equation or a swapped colour changes no result',
  ['srg/srg.py', 'srg/pprint.py'], [('Question.__repr__', 'srg/srg.py'), ('Answer.__repr__', 'srg/srg.py'), ('green', 'srg/pprint.py'), ('compose', 'srg/pprint.py')],
  TV, 'about 120 systems, answers and matrices')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                    quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='python3-vt -B -c "import sa.registry"', checks=[], not_applicable=[])
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 2, x['id']
        if x['na']:
            m['not_applicable'].append(dict(property=x['id'], reason=x['na']))
        else:
            m['checks'].append(dict(property=x['id'], quick_cmd='python3-vt -B check.py %s quick' % x['id'],
                                    thorough_cmd='python3-vt -B check.py %s thorough' % x['id'],
                                    evidence_file='evidence/%s.json' % x['id'], technique=x['tech'], level='other', level_note=x['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
