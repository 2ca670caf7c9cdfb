"""C12: every setter stores exactly the value given, when it is in the documented range, and otherwise changes nothing."""
from verifier.spec import Contract
S = 'src/'
def setter(cls, name, file, field, cond='true', val=None, param=None, nparams=1, throws=None):
    """this.field == (cond ? val : old), nothing else written"""
    def post(sc):
        import z3
        f = sc.ex.frame.func
        from verifier.cast import TU
        p = param or TU.params(f)[0]['name']
        v = sc[p]
        from verifier.spec import evalf, View
        new = read(sc, field); old = read(sc, field, True)
        c = evalf(sc.ex, sc.st, cond, None, {'v': sc.at(sc.ex.entry, p)})
        w = evalf(sc.ex, sc.st, val or 'v', None, {'v': sc.at(sc.ex.entry, p)})
        if w.sort() != new.sort(): w = sc.ex.conv(w, {'Int': 'int', 'Real': 'double', 'Bool': 'bool'}[str(new.sort())])
        return new == z3.If(c, w, old)
    post.__name__ = 'stores its argument exactly when (%s), in %s' % (cond, field)
    def thr(sc):
        import z3
        from verifier.spec import evalf
        from verifier.cast import TU
        p = param or TU.params(sc.ex.frame.func)[0]['name']
        return z3.Not(evalf(sc.ex, sc.st, cond, None, {'v': sc.at(sc.ex.entry, p)}))
    return Contract(name, file, cls=cls, nparams=nparams, ensures=[post], modifies=[field], frame=True, throws=[thr] if throws else None)
def read(sc, field, old=False):
    src = 'this.' + field
    return sc.at(sc.ex.entry, src) if old else eval(src, {'__builtins__': {}}, sc)
def getter(cls, name, file, field, val=None):
    def post(sc):
        from verifier.spec import evalf
        r = sc['result']; v = read(sc, field)
        w = evalf(sc.ex, sc.st, val, None, {'v': v}) if val else v
        if w.sort() != r.sort(): w = sc.ex.conv(w, {'Int': 'int', 'Real': 'double', 'Bool': 'bool'}[str(r.sort())])
        return r == w
    post.__name__ = 'returns ' + field
    return Contract(name, file, cls=cls, nparams=0, ensures=[post], frame=True)

G0 = 'v >= 0'; P0 = 'v > 0'; AWAY = 'And(v > 0, v <= R("0.5"))'; T1 = 'And(v > 0, v <= R("0.1"))'; U1 = 'And(v > 0, v <= 1)'; Z1 = 'And(v >= 0, v <= 1)'
# class, file, [(setter, getter, field, condition, stored value)]
TABLE = [
 ('CglParam', 'CglCommon/CglParam.cpp', [('setINFINIT', 'getINFINIT', 'INFINIT', P0), ('setEPS', 'getEPS', 'EPS', G0), ('setEPS_COEFF', 'getEPS_COEFF', 'EPS_COEFF', G0), ('setMAX_SUPPORT', 'getMAX_SUPPORT', 'MAX_SUPPORT', P0)]),
 ('CglRedSplitParam', 'CglRedSplit/CglRedSplitParam.cpp', [('setAway', 'getAway', 'away_', AWAY), ('setMaxTab', 'getMaxTab', 'maxTab_', 'v > 10'), ('setLUB', 'getLUB', 'LUB', P0), ('setEPS_ELIM', 'getEPS_ELIM', 'EPS_ELIM', G0),
   ('setEPS_RELAX_ABS', 'getEPS_RELAX_ABS', 'EPS_RELAX_ABS', G0), ('setEPS_RELAX_REL', 'getEPS_RELAX_REL', 'EPS_RELAX_REL', G0), ('setMAXDYN', 'getMAXDYN', 'MAXDYN', 'v > 1'), ('setMAXDYN_LUB', 'getMAXDYN_LUB', 'MAXDYN_LUB', 'v > 1'),
   ('setEPS_COEFF_LUB', 'getEPS_COEFF_LUB', 'EPS_COEFF_LUB', T1), ('setMINVIOL', 'getMINVIOL', 'MINVIOL', T1), ('setUSE_INTSLACKS', 'getUSE_INTSLACKS', 'USE_INTSLACKS', 'true'), ('setUSE_CG2', 'getUSE_CG2', 'USE_CG2', 'true'),
   ('setNormIsZero', 'getNormIsZero', 'normIsZero', U1), ('setMinReduc', 'getMinReduc', 'minReduc', U1)]),
 ('CglGMIParam', 'CglGMI/CglGMIParam.cpp', [('setAway', 'getAway', 'AWAY', AWAY), ('setAWAY', 'getAWAY', 'AWAY', AWAY), ('setEPS_ELIM', 'getEPS_ELIM', 'EPS_ELIM', G0), ('setEpsElim', 'getEpsElim', 'EPS_ELIM', G0), ('setEPS_RELAX_ABS', 'getEPS_RELAX_ABS', 'EPS_RELAX_ABS', G0),
   ('setEpsRelaxAbs', 'getEpsRelaxAbs', 'EPS_RELAX_ABS', G0), ('setEPS_RELAX_REL', 'getEPS_RELAX_REL', 'EPS_RELAX_REL', G0), ('setEpsRelaxRel', 'getEpsRelaxRel', 'EPS_RELAX_REL', G0), ('setMAXDYN', 'getMAXDYN', 'MAXDYN', 'v >= 1'), ('setMaxDyn', 'getMaxDyn', 'MAXDYN', 'v >= 1'),
   ('setMINVIOL', 'getMINVIOL', 'MINVIOL', G0), ('setMinViol', 'getMinViol', 'MINVIOL', G0), ('setMAX_SUPPORT_REL', 'getMAX_SUPPORT_REL', 'MAX_SUPPORT_REL', Z1), ('setMaxSupportRel', 'getMaxSupportRel', 'MAX_SUPPORT_REL', Z1),
   ('setUSE_INTSLACKS', 'getUSE_INTSLACKS', 'USE_INTSLACKS', 'true'), ('setUseIntSlacks', 'getUseIntSlacks', 'USE_INTSLACKS', 'true'), ('setCHECK_DUPLICATES', 'getCHECK_DUPLICATES', 'CHECK_DUPLICATES', 'true'), ('setCheckDuplicates', 'getCheckDuplicates', 'CHECK_DUPLICATES', 'true'),
   ('setCLEAN_PROC', 'getCLEAN_PROC', 'CLEAN_PROC', 'true'), ('setCleanProc', 'getCleaningProcedure', 'CLEAN_PROC', 'true'), ('setINTEGRAL_SCALE_CONT', 'getINTEGRAL_SCALE_CONT', 'INTEGRAL_SCALE_CONT', 'true'), ('setIntegralScaleCont', 'getIntegralScaleCont', 'INTEGRAL_SCALE_CONT', 'true'),
   ('setENFORCE_SCALING', 'getENFORCE_SCALING', 'ENFORCE_SCALING', 'true'), ('setEnforceScaling', 'getEnforcescaling', 'ENFORCE_SCALING', 'true'), ('setInfinity', 'getInfinity', 'INFINIT', P0), ('setEps', 'getEps', 'EPS', G0), ('setEpsCoeff', 'getEpsCoeff', 'EPS_COEFF', G0),
   ('setMaxSupport', 'getMaxSupport', 'MAX_SUPPORT', P0), ('setMaxSupportAbs', 'getMaxSupportAbs', 'MAX_SUPPORT', P0)]),
 ('CglRedSplit2Param', 'CglRedSplit2/CglRedSplit2Param.cpp', [('setAway', 'getAway', 'away_', AWAY), ('setEPS_ELIM', 'getEPS_ELIM', 'EPS_ELIM', G0), ('setEPS_RELAX_ABS', 'getEPS_RELAX_ABS', 'EPS_RELAX_ABS', G0), ('setEPS_RELAX_REL', 'getEPS_RELAX_REL', 'EPS_RELAX_REL', G0),
   ('setMAXDYN', 'getMAXDYN', 'MAXDYN', 'v > 1'), ('setMINVIOL', 'getMINVIOL', 'MINVIOL', T1), ('setMAX_SUPP_REL', 'getMAX_SUPP_REL', 'MAX_SUPP_REL', Z1), ('setMAX_SUPP_ABS', 'getMAX_SUPP_ABS', 'MAX_SUPPORT', P0), ('setUSE_INTSLACKS', 'getUSE_INTSLACKS', 'USE_INTSLACKS', 'true'),
   ('setNormIsZero', 'getNormIsZero', 'normIsZero_', U1), ('setMinNormReduction', 'getMinNormReduction', 'minNormReduction_', U1), ('setMaxSumMultipliers', 'getMaxSumMultipliers', 'maxSumMultipliers_', 'v > 1'), ('setNormalization', 'getNormalization', 'normalization_', G0),
   ('setTimeLimit', 'getTimeLimit', 'timeLimit_', 'true', 'If(v >= 0, v, R("0"))'), ('setMaxNumCuts', 'getMaxNumCuts', 'maxNumCuts_', G0), ('setMaxNumComputedCuts', 'getMaxNumComputedCuts', 'maxNumComputedCuts_', G0), ('setMaxNonzeroesTab', 'getMaxNonzeroesTab', 'maxNonzeroesTab_', G0),
   ('setColumnScalingStrategyLAP', 'getColumnScalingStrategyLAP', 'columnScalingStrategyLAP_', 'true'), ('setColumnScalingBoundLAP', 'getColumnScalingBoundLAP', 'columnScalingBoundLAP_', G0), ('setSkipGomory', 'getSkipGomory', 'skipGomory_', 'And(v >= 0, v <= 1)')]),
 ('CglRedSplit', 'CglRedSplit/CglRedSplit.cpp', [('setLimit', 'getLimit', 'param.MAX_SUPPORT', P0), ('setAway', 'getAway', 'param.away_', AWAY), ('setMaxTab', 'getMaxTab', 'param.maxTab_', 'v > 10'), ('setLUB', 'getLUB', 'param.LUB', P0), ('setEPS', 'getEPS', 'param.EPS', T1), ('setEPS_COEFF', 'getEPS_COEFF', 'param.EPS_COEFF', T1),
   ('setEPS_COEFF_LUB', 'getEPS_COEFF_LUB', 'param.EPS_COEFF_LUB', T1), ('setEPS_RELAX', 'getEPS_RELAX', 'param.EPS_RELAX_ABS', T1), ('setNormIsZero', 'getNormIsZero', 'param.normIsZero', U1), ('setMinReduc', 'getMinReduc', 'param.minReduc', U1)]),
 ('CglOddHole', 'CglOddHole/CglOddHole.cpp', [('setMinimumViolation', 'getMinimumViolation', 'minimumViolation_', 'And(v > R("1/100000000"), v <= R("0.5"))'), ('setMinimumViolationPer', 'getMinimumViolationPer', 'minimumViolationPer_', 'And(v > R("1/100000000"), v <= R("0.25"))'), ('setMaximumEntries', 'getMaximumEntries', 'maximumEntries_', 'v > 2')]),
 ('CglMixedIntegerRounding', 'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', [('setDoPreproc', ('getDoPreproc', 'v != 0'), 'doPreproc_', 'And(v >= -1, v <= 1)', None, True), ('setMAXAGGR_', 'getMAXAGGR_', 'MAXAGGR_', P0, None, True), ('setMULTIPLY_', 'getMULTIPLY_', 'MULTIPLY_', 'true'), ('setCRITERION_', 'getCRITERION_', 'CRITERION_', 'And(v >= 1, v <= 3)', None, True)]),
 ('CglLiftAndProject', 'CglLiftAndProject/CglLiftAndProject.cpp', [('setBeta', 'getBeta', 'beta_', 'Or(v == 1, v == -1)', None, True)]),
 ('CglKnapsackCover', 'CglKnapsackCover/CglKnapsackCover.cpp', [('setMaxInKnapsack', 'getMaxInKnapsack', 'maxInKnapsack_', P0)]),
 ('CglCutGenerator', 'CglCommon/CglCutGenerator.cpp', [('setAggressiveness', 'getAggressiveness', 'aggressive_', 'true'), ('setGlobalCuts', 'canDoGlobalCuts', 'canDoGlobalCuts_', 'true'), ('setMaxSeconds', 'getMaxSeconds', 'maxSeconds_', 'true')]),
 ('CglStored', 'CglCommon/CglStored.cpp', [('setRequiredViolation', 'getRequiredViolation', 'requiredViolation_', 'true')]),
 ('CglAllDifferent', 'CglAllDifferent/CglAllDifferent.cpp', [('setLogLevel', 'getLogLevel', 'logLevel_', 'true'), ('setMaxLook', 'getMaxLook', 'maxLook_', 'true')]),
 ('CglDuplicateRow', 'CglDuplicateRow/CglDuplicateRow.cpp', [('setLogLevel', 'logLevel', 'logLevel_', 'true'), ('setMaximumRhs', 'maximumRhs', 'maximumRhs_', 'true'), ('setMaximumDominated', 'maximumDominated', 'maximumDominated_', 'true'), ('setMode', 'mode', 'mode_', 'true')]),
 ('CglClique', 'CglClique/CglClique.cpp', [('setStarCliqueNextNodeMethod', None, 'scl_next_node_rule', 'true'), ('setStarCliqueCandidateLengthThreshold', None, 'scl_candidate_length_threshold', 'true'), ('setRowCliqueCandidateLengthThreshold', None, 'rcl_candidate_length_threshold', 'true'),
   ('setStarCliqueReport', None, 'scl_report_result', 'true'), ('setRowCliqueReport', None, 'rcl_report_result', 'true'), ('setDoStarClique', None, 'do_star_clique', 'true'), ('setDoRowClique', None, 'do_row_clique', 'true'), ('setMinViolation', 'getMinViolation', 'petol', 'true'), ('setMaxNumber', None, 'maxNumber_', 'true')]),
 ('CglZeroHalf', 'CglZeroHalf/CglZeroHalf.cpp', [('setFlags', 'getFlags', 'flags_', 'true')]),
 ('Cgl012Cut', 'CglZeroHalf/Cgl012cut.cpp', [('setMaxSeconds', 'getMaxSeconds', 'maxSeconds_', 'true'), ('setSepGraphSparseThreshold', 'getSepGraphSparseThreshold', 'sepGraphSparseThreshold_', 'true'), ('setRowMaxPairCount', 'getRowMaxPairCount', 'rowMaxPairCount_', 'true'), ('setRowMaxFractionalCount', 'getRowMaxFractionalCount', 'rowMaxFractionalCount_', 'true')]),
 ('Validator', 'CglLandP/CglLandPValidator.cpp', [('setMaxFillIn', 'getMaxFillIn', 'maxFillIn_', 'true'), ('setMaxRatio', 'getMaxRatio', 'maxRatio_', 'true'), ('setMinViolation', 'getMinViolation', 'minViolation_', 'true'), ('setRhsScale', None, 'rhsScale_', 'true')]),
]
CP = 'CglCommon/CglParam.cpp'
EXTRA = {'CglGMIParam': [CP], 'CglRedSplit2Param': [CP], 'CglRedSplitParam': [CP], 'CglRedSplit': [CP, 'CglRedSplit/CglRedSplitParam.cpp']}
CLS = {'CglGMIParam': ['CglParam'], 'CglRedSplit2Param': ['CglParam'], 'CglRedSplitParam': ['CglParam'], 'CglRedSplit': ['CglParam', 'CglRedSplitParam']}
UNITS = []
for row in TABLE:
    cls, file, lst = row
    f = S + file; cs = []
    for e in lst:
        st, gt, fld, cond = e[:4]; val = e[4] if len(e) > 4 else None; thr = e[5] if len(e) > 5 else None
        cs.append(setter(cls, st, f, fld, cond, val, throws=thr))
        if gt: cs.append(getter(cls, gt[0], f, fld, gt[1]) if isinstance(gt, tuple) else getter(cls, gt, f, fld))
    files = [f] + [S + x for x in EXTRA.get(cls, ())]
    UNITS.append(dict(name=cls, files=files, classes=[cls] + CLS.get(cls, []), verify=cs))
