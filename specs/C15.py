"""C15: frame contracts of cut generation, on every function reachable from the generateCuts of each generator."""
C = 'src/CglCommon/'
GEN = [('CglSimpleRounding', ['src/CglSimpleRounding/CglSimpleRounding.cpp'], []), ('CglClique', ['src/CglClique/CglClique.cpp', 'src/CglClique/CglCliqueHelper.cpp'], []), ('CglOddHole', ['src/CglOddHole/CglOddHole.cpp'], []),
       ('CglMixedIntegerRounding', ['src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp'], []), ('CglZeroHalf', ['src/CglZeroHalf/CglZeroHalf.cpp', 'src/CglZeroHalf/Cgl012cut.cpp'], ['Cgl012Cut']),
       ('CglKnapsackCover', ['src/CglKnapsackCover/CglKnapsackCover.cpp'], []), ('CglAllDifferent', ['src/CglAllDifferent/CglAllDifferent.cpp'], []), ('CglStored', [C + 'CglStored.cpp'], []),
       ('CglRedSplit', ['src/CglRedSplit/CglRedSplit.cpp'], []), ('CglLiftAndProject', ['src/CglLiftAndProject/CglLiftAndProject.cpp'], []), ('CglTreeProbingInfo', [C + 'CglTreeInfo.cpp'], [])]
def run(unit, tus):
    from verifier import effects
    return effects.run(unit, tus)
UNITS = [dict(name=c, files=fs, classes=[c] + ex, roots=[(c, 'generateCuts')], verify=[], run=run, budget=120) for c, fs, ex in GEN]
