#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
VALID = ("every integer-feasible point of the problem the generator was shown (rows, bounds and integrality as reported by the "
         "solver at the call) satisfies every cut it adds")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
TEST = "The unit tests run the generator on one or two fixed models and compare with a recorded cut or a known optimum; they say nothing about other "
S = 'src/'
prop('C01', 'Simple rounding cuts never cut off an integer-feasible point',
 'Whatever model a simple-rounding generator is given, every cut it adds is satisfied by every point that satisfies the rows, bounds and integrality of that model. Continuous and fixed variables are netted out at a bound that makes the row weaker, never stronger, and scaling coefficients to integers never changes the inequality.',
 ['inputs', 'histories'], 'for all models (any row senses, signs, bounds, integer/continuous mix, decimal coefficients), all row orders and any sequence of earlier calls on the same generator',
 TEST + 'row senses, coefficient signs, scales or bounds.',
 [S+'CglSimpleRounding/CglSimpleRounding.cpp', S+'CglSimpleRounding/CglSimpleRounding.hpp'],
 [('derive an integer <= row by netting out continuous and fixed columns', 'CglSimpleRounding::deriveAnIntegerRow'),
  ('power of ten that makes all coefficients integral', 'CglSimpleRounding::power10ToMakeDoubleAnInt'),
  ('greatest common divisor', 'CglSimpleRounding::gcd, gcdv'), ('divide by gcd, round down, restore signs', 'CglSimpleRounding::generateCuts')],
 [('negative', 'sign of each column in the current row; all false between rows', 'CglSimpleRounding::generateCuts')], ['cuts added to the collection'])
prop('C02', 'Clique cuts only join variables that are pairwise exclusive',
 'Every clique cut added says that at most one of a set of 0-1 variables is 1, and any two variables of that set really exclude each other in the model. Consequently no clique cut removes an integer-feasible point, in set-packing mode for set-packing models and in general mode for every model.',
 ['inputs', 'histories', 'configurations'], 'for all models, all fractional solutions, both modes, all thresholds and options, and any sequence of earlier calls on the same generator',
 TEST + 'conflict structures, candidate-list lengths (enumeration versus greedy), or models mixing 0-1, integer and continuous columns.',
 [S+'CglClique/CglClique.cpp', S+'CglClique/CglCliqueHelper.cpp'],
 [('pick fractional 0-1 columns and rows that imply pairwise exclusion', 'CglClique::selectFractionalBinaries, selectRowCliques'),
  ('conflict matrix between the chosen columns', 'CglClique::createSetPackingSubMatrix, createNodeNode'),
  ('enumerate or greedily extend cliques', 'CglClique::find_rcl, find_scl, enumerate_maximal_cliques, greedy_maximal_clique'),
  ('translate to original columns and insert', 'CglClique::recordClique')],
 [('conflict matrix', 'entry (a,b) set only when some chosen row holds both columns', 'CglClique::node_node')], ['cuts added to the collection'])
prop('C03', 'Odd-hole cuts never cut off an integer-feasible point',
 'Every odd-cycle inequality generated from packing or covering rows is satisfied by every integer-feasible point of the model. It is obtained by adding rows of the model and bounds of its 0-1 variables, halving, and rounding in the safe direction.',
 ['inputs', 'histories', 'configurations'], 'for all models, all LP solutions, all settings of row selection, violation and size limits',
 TEST + 'cycle structures, fixed or non-binary columns in packing rows, or covering rows.',
 [S+'CglOddHole/CglOddHole.cpp', S+'CglOddHole/CglOddHole.hpp'],
 [('choose usable packing rows', 'CglOddHole::createRowList'), ('adjacency, shortest odd closed walk, Chvatal-Gomory rounding', 'CglOddHole::generateCuts(rowCopy, ...)')],
 [('suitable rows', 'rows that may be added up', 'CglOddHole::suitableRows_'), ('fixed', 'columns treated as constants', 'generateCuts')], ['cuts added to the collection'])
prop('C04', 'Mixed-integer-rounding cuts never cut off a mixed-integer-feasible point',
 'Every mixed-integer-rounding cut added is satisfied by every mixed-integer-feasible point of the model it was generated from. Row aggregation, substitution of bounds and variable bounds, complementing, scaling and rounding each keep the inequality valid.',
 ['inputs', 'histories', 'configurations'], 'for all models with any mix of row senses, variable lower/upper bounds, infinite bounds, and all parameter settings, on first and later calls',
 TEST + 'aggregation paths, variable-bound structures or complementing choices.',
 [S+'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', S+'CglMixedIntegerRounding/CglMixedIntegerRounding.hpp'],
 [('classify rows and find variable bounds', 'mixIntRoundPreprocess, determineRowType'), ('copy / aggregate rows', 'copyRowSelected, aggregateRow, selectRowToAggregate'),
  ('substitute bounds', 'boundSubstitution'), ('complement, divide, round', 'cMirSeparation, cMirInequality, functionG'), ('cut in the original variables', 'generateMirCuts')],
 [('variable upper/lower bounds', 'x <= v*y, x >= v*y implied by a row', 'vubs_, vlbs_')], ['cuts added to the collection'])
prop('C05', 'Reduce-and-split cuts never cut off a mixed-integer-feasible point',
 'Every reduce-and-split cut added is satisfied by every mixed-integer-feasible point of the model. Combining tableau rows with integer multipliers, mixed-integer Gomory rounding, elimination of slacks and the final scaling and right-hand-side relaxation never make the cut stronger than the disjunction allows.',
 ['inputs', 'configurations'], 'for all models and all optimal bases (variables non-basic at lower or at upper), all parameter settings; the solver reports a basis that matches its solution (each nonbasic variable is at the bound its status names)',
 TEST + 'bases, bound statuses or variable types.',
 [S+'CglRedSplit/CglRedSplit.cpp', S+'CglRedSplit/CglRedSplitParam.cpp'],
 [('tableau rows and reduction', 'CglRedSplit::generate_row, reduce_contNonBasicTab'), ('cut coefficients', 'CglRedSplit::generate_cgcut, generate_cgcut_2'),
  ('slack elimination', 'CglRedSplit::eliminate_slacks'), ('flip of variables at upper bound', 'CglRedSplit::flip, unflip'), ('final checks and relaxation', 'CglRedSplit::check_dynamism, generateCuts')],
 [('non-basic at upper flags', 'columns complemented before rounding', 'CglRedSplit::nonBasicAtUpper')], ['cuts added to the collection'])
prop('C06', 'Zero-half cuts never cut off an integer-feasible point',
 'Every {0,1/2} cut added is satisfied by every integer-feasible point of the model: it is half the sum of selected rows and variable bounds with integer coefficients, rounded in the safe direction.',
 ['inputs', 'histories', 'configurations'], 'for all models with integer rows over integer variables (rows of other kinds are ignored), all right-hand-side parities, any earlier calls on the same generator',
 TEST + 'parities, senses, bounds or shortest-path weakenings.',
 [S+'CglZeroHalf/Cgl012cut.cpp', S+'CglZeroHalf/CglZeroHalf.cpp'],
 [('translate model rows to integer arrays', 'CglZeroHalf::refreshSolver, generateCuts'), ('mod-2 system and separation graph', 'Cgl012Cut::get_parity_ilp, basic_separation'),
  ('combine original rows, weaken at bounds, halve and round', 'Cgl012Cut::get_ori_cut_coef, best_cut, get_cut')],
 [('integer copy of the model', 'rows with integer coefficients and finite sides only', 'mtbeg_, mtind_, mtval_, mrhs_, msense_')], ['cuts added to the collection'])
prop('C07', 'Knapsack cover cuts never cut off an integer-feasible point',
 'Every cover, lifted-cover or uncomplemented cover inequality added is satisfied by every integer-feasible point of the model. A set is used as a cover only when its coefficients really exceed the capacity, and lifting never gives a coefficient larger than the knapsack allows.',
 ['inputs', 'histories', 'configurations'], 'for all models whose rows contain knapsacks (any sense, sign of coefficients, fixed, general-integer or continuous columns), all LP solutions, expensive cuts on or off',
 'The knapsack tests are not among the reliable ones here, and sample a handful of rows; they say nothing about other coefficients, complemented columns or fractional LP values.',
 [S+'CglKnapsackCover/CglKnapsackCover.cpp', S+'CglKnapsackCover/CglKnapsackCover.hpp'],
 [('derive a 0-1 knapsack from a row', 'CglKnapsackCover::deriveAKnapsack'),
  ('find covers', 'findExactMostViolatedMinCover, findLPMostViolatedMinCover, findGreedyCover, findPseudoJohnAndEllisCover, findJohnAndEllisCover'),
  ('lift and add', 'liftCoverCut, liftAndUncomplementAndAdd, liftUpDownAndUncomplementAndAdd, seqLiftAndUncomplementAndAdd')],
 [('complement flags', 'columns replaced by one minus the column', 'complement')], ['cuts added to the collection'])
prop('C08', 'All-different tightening never excludes an all-different solution',
 'Bounds tightened (or infeasibility reported) by the all-different generator never exclude an assignment within the current bounds in which the members of every set take pairwise different integer values. Each tightening is reported for the variable it was derived for.',
 ['inputs', 'histories'], 'for all families of sets, overlapping or unsorted, and all integer bounds',
 'There is no reliable test of this generator here; the existing one uses one model.',
 [S+'CglAllDifferent/CglAllDifferent.cpp'],
 [('possible-value table, fixing and enumeration per set', 'CglAllDifferent::generateCuts'), ('mapping of set members to columns', 'CglAllDifferent::CglAllDifferent(int, const int*, const int*)')],
 [('possible values', 'value v still allowed for variable k', 'possible')], ['column cuts and infeasible row cut'])
prop('C10', 'Stored cuts come back exactly as stored, and whenever they are violated',
 'A cut handed to the cut store is kept with exactly its coefficients and bounds, and a later generation call adds it whenever the current solution violates it by more than the required violation, and adds nothing that was not stored. Saved solution, objective and bounds are returned unchanged, also from copies.',
 ['inputs', 'histories', 'configurations'], 'for all cuts, all solutions, all required violations and all orders of adding, generating and copying',
 'No unit test exercises the store.',
 [S+'CglCommon/CglStored.cpp', S+'CglCommon/CglStored.hpp'],
 [('add', 'CglStored::addCut'), ('generate', 'CglStored::generateCuts'), ('best solution and bounds', 'CglStored::saveStuff, bestSolution, tightLower, tightUpper'), ('copy and assign', 'CglStored copy constructor, operator=')],
 [('collection of stored cuts', 'what was added, in order', 'CglStored::cuts_')], ['cuts added to the collection', 'accessors'])
prop('C11', 'Recorded implications are applied exactly as recorded',
 'An implication recorded between two 0-1 variables in the probing store is later applied only in the recorded direction: fixing a variable fixes exactly the variables recorded as implied, to the implied value, and a cut derived from stored implications holds for every point satisfying them. No implication is invented, reversed or attached to another column.',
 ['inputs', 'histories'], 'for all sequences of recorded implications, conversions and fixings, over any number of columns',
 'No unit test exercises the probing store.',
 [S+'CglCommon/CglTreeInfo.cpp', S+'CglCommon/CglTreeInfo.hpp'],
 [('record', 'CglTreeProbingInfo::fixes'), ('sort into per-variable lists', 'CglTreeProbingInfo::convert'), ('apply', 'CglTreeProbingInfo::fixColumns'), ('cuts from implications', 'CglTreeProbingInfo::generateCuts')],
 [('implication entries', 'column, direction and implied column packed in one word', 'CliqueEntry, fixEntry_, toZero_, toOne_')], ['bounds set on the solver', 'cuts added'])
prop('C12', 'Parameter setters accept exactly the documented values',
 'Setting a tuning parameter either stores exactly the given value, when it lies in the documented range, so that the matching getter returns it, or leaves every parameter unchanged (a negative time limit counts as zero); no setter alters another parameter. A parameter object therefore never holds a value outside its documented range.',
 ['inputs', 'histories', 'configurations'], 'for all values (including negative, zero, boundary and huge ones) and all sequences of setter calls',
 'The tests set a few in-range values.',
 [S+'CglCommon/CglParam.cpp', S+'CglRedSplit/CglRedSplitParam.cpp', S+'CglRedSplit2/CglRedSplit2Param.cpp', S+'CglGMI/CglGMIParam.cpp', S+'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', S+'CglOddHole/CglOddHole.cpp', S+'CglLiftAndProject/CglLiftAndProject.hpp'],
 [('range check then store', 'setXxx of each parameter class')], (), ['getters'])
prop('C13', 'Copying, cloning and assigning keep the whole configuration',
 'A copy, clone or assigned object of a cut generator or parameter class has exactly the configuration and stored data of its source, and owns its own storage: later changes to either do not affect the other. Assigning an object to itself changes nothing. (A zero-half generator is refreshed with the model before it separates, copies included; working storage of a running separation is not configuration.)',
 ['inputs', 'histories', 'configurations'], 'for all generator and parameter classes built here, all configurations, copy construction, clone, assignment over a configured object and self-assignment',
 'The tests copy default-configured objects and check almost none of the fields.',
 [S+'CglCommon/CglCutGenerator.cpp', S+'CglCommon/CglStored.cpp', S+'CglCommon/CglTreeInfo.cpp', S+'CglCommon/CglParam.cpp', S+'CglSimpleRounding/CglSimpleRounding.cpp', S+'CglOddHole/CglOddHole.cpp', S+'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', S+'CglRedSplit/CglRedSplit.cpp', S+'CglRedSplit/CglRedSplitParam.cpp', S+'CglZeroHalf/CglZeroHalf.cpp', S+'CglKnapsackCover/CglKnapsackCover.cpp', S+'CglAllDifferent/CglAllDifferent.cpp', S+'CglDuplicateRow/CglDuplicateRow.cpp', S+'CglLiftAndProject/CglLiftAndProject.cpp', S+'CglGMI/CglGMIParam.cpp', S+'CglRedSplit2/CglRedSplit2Param.cpp', S+'CglClique/CglClique.cpp', S+'CglLandP/CglLandPValidator.cpp'],
 [('copy constructor, operator=, clone, gutsOfCopy', 'each class')], (), ['getters', 'generated cuts'])
prop('C14', 'Lift-and-project cuts never cut off a feasible 0-1 point',
 'For a mixed 0-1 model in the documented canonical form (all rows of the >= kind, bounds stated as rows), every lift-and-project cut added is satisfied, up to the accuracy of the cut-generating linear program, by every feasible point with 0-1 values for the 0-1 variables.',
 ['inputs', 'configurations'], 'for all models in canonical form and both normalisations',
 'There is no reliable test of this generator here.',
 [S+'CglLiftAndProject/CglLiftAndProject.cpp'],
 [('cut-generating LP and cut from its multipliers', 'CglLiftAndProject::generateCuts')], (), ['cuts added to the collection'])
prop('C15', 'Generating cuts only appends to the cut collection and reads the model',
 'A cut generation call leaves every cut already in the collection as it was, adds its own after them, and does not change the model it reads: bounds, rows, integrality and solution are the same afterwards (for generators that work on the simplex tableau, the value of the solution, which may be reported at another optimal vertex). This holds on every exit path, also when nothing is found.',
 ['inputs', 'histories', 'configurations'], 'for all generators built here, all models, all prior contents of the collection and all exits',
 'The tests always start from an empty collection and never compare the model before and after.',
 [S+'CglSimpleRounding/CglSimpleRounding.cpp', S+'CglClique/CglClique.cpp', S+'CglOddHole/CglOddHole.cpp', S+'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', S+'CglZeroHalf/CglZeroHalf.cpp', S+'CglKnapsackCover/CglKnapsackCover.cpp', S+'CglAllDifferent/CglAllDifferent.cpp', S+'CglCommon/CglStored.cpp', S+'CglRedSplit/CglRedSplit.cpp'],
 [('const access to the model, insert-only access to the collection', 'generateCuts of each generator')], (), ['the collection and the solver before and after'])
prop('C16', 'Cut cleaning only accepts cuts within limits and never strengthens them',
 'The cut validator accepts a cut only if it is violated enough, sparse enough and numerically within the configured limits, and an accepted cut, however it was changed, is satisfied by every point within the variable bounds that satisfies the cut as given. A rejected cut is reported with the reason that applies, and the counts of rejections match what was reported.',
 ['inputs', 'histories', 'configurations'], 'for all cuts, bounds, solutions and settings of the limits',
 'No unit test exercises the validator.',
 [S+'CglLandP/CglLandPValidator.cpp', S+'CglLandP/CglLandPValidator.hpp'],
 [('drop or relax small coefficients at a bound', 'LAP::Validator::cleanCut, cleanCut2'), ('limits', 'LAP::Validator setters')], (), ['return value and the cut after the call'])
NA = 'unit tests sample a few models only'
for id, title, st, files in [
 ('C20', 'Tableau cuts (Gomory, GMI, two-step MIR, reduce-and-split 2) are valid', 'Every cut from the other tableau-based generators is satisfied by every mixed-integer-feasible point of the model.', ['src/CglGomory/CglGomory.cpp', 'src/CglGMI/CglGMI.cpp', 'src/CglTwomir/CglTwomir.cpp', 'src/CglRedSplit2/CglRedSplit2.cpp']),
 ('C21', 'Probing only fixes and tightens what every feasible point satisfies', 'Bounds and cuts produced by probing never exclude a mixed-integer-feasible point.', ['src/CglProbing/CglProbing.cpp']),
 ('C22', 'Preprocessing preserves the optimum and postprocessing recovers it', 'The preprocessed model has the same optimal value as the original, and its solutions are mapped back to feasible solutions of the original with the same value.', ['src/CglPreProcess/CglPreProcess.cpp']),
 ('C23', 'Flow-cover, residual-capacity and second MIR cuts are valid', 'Every cut of these generators is satisfied by every mixed-integer-feasible point of the model.', ['src/CglFlowCover/CglFlowCover.cpp', 'src/CglResidualCapacity/CglResidualCapacity.cpp', 'src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp']),
 ('C24', 'Conflict-graph cuts and clique strengthening are valid', 'Cuts and strengthened rows derived from the conflict graph are satisfied by every integer-feasible point of the model.', ['src/CglBKClique/CglBKClique.cpp', 'src/CglOddWheel/CglOddWheel.cpp', 'src/CglCliqueStrengthening/CglCliqueStrengthening.cpp']),
 ('C25', 'Lift-and-project cuts from the simplex tableau are valid', 'Every cut found by pivoting in the tableau is satisfied by every mixed-integer-feasible point of the model.', ['src/CglLandP/CglLandP.cpp', 'src/CglLandP/CglLandPSimplex.cpp']),
 ('C26', 'Duplicate-row and dominated-column reductions keep an optimal solution', 'Fixing columns and dropping rows on account of duplication or dominance leaves at least one optimal solution of the model.', ['src/CglDuplicateRow/CglDuplicateRow.cpp']),
]:
    prop(id, title, st, ['inputs', 'configurations'], 'for all models and configurations', 'The ' + NA + '.', files, [('generateCuts / preProcess', files[0])])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
