"""Generates the concrete driver of C12 from the contract table in specs/C12.py (public setters and getters only)."""
import ast, os, sys
def c(e):
    n = ast.parse(e, mode='eval').body
    def t(n):
        if isinstance(n, ast.Call):
            f = n.func.id; a = [t(x) for x in n.args]
            if f == 'And': return '(' + ' && '.join(a) + ')'
            if f == 'Or': return '(' + ' || '.join(a) + ')'
            if f == 'If': return '(%s ? %s : %s)' % tuple(a)
            if f == 'R':
                v = n.args[0].value
                return '(%s)' % ('1e-8' if v == '1/100000000' else v)
        if isinstance(n, ast.Compare): return '(%s %s %s)' % (t(n.left), {ast.Gt: '>', ast.GtE: '>=', ast.Lt: '<', ast.LtE: '<=', ast.Eq: '==', ast.NotEq: '!='}[type(n.ops[0])], t(n.comparators[0]))
        if isinstance(n, ast.Name): return n.id
        if isinstance(n, ast.Constant): return str(n.value)
        if isinstance(n, ast.UnaryOp): return '(-%s)' % t(n.operand)
        raise ValueError(ast.dump(n))
    return t(n)
def generate(table):
    o = ['#include <vector>', '#include <string>', '#include <cstdio>', '#include <cstdlib>', '#include <cstring>', '#include <sstream>', '#include <fstream>', '#include <iostream>', '#include "mip.hpp"']
    for cls, f, lst in table: o.append('#include "%s"' % HDR.get(cls, os.path.basename(f)[:-4] + '.hpp'))
    o.append(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'params.inc')).read())
    body = []
    for cls, f, lst in table:
        C = NS.get(cls, cls)
        body.append('static Cls* make_%s() {\n  typedef %s C; ClsT<C>* k = new ClsT<C>("%s");' % (cls, C, cls))
        for e in lst:
            s, g, fld, cond = e[:4]; val = e[4] if len(e) > 4 and e[4] else 'v'
            gt = g[0] if isinstance(g, tuple) else g; gv = c(g[1]) if isinstance(g, tuple) else 'v'
            G = '[](C& o) -> double { return (double)o.%s(); }' % gt if gt else 'nullptr'
            body.append('  k->add("%s", "%s", [](C& o, double v, double& w) { return call(o, &C::%s, v, w); }, [](double v) -> bool { return %s; }, [](double v) -> double { return %s; }, %s, [](double v) -> double { return %s; });' % (s, fld, s, c(cond), c(val), G, gv))
        body.append('  return k;\n}')
    o += body
    o.append('static std::vector<Cls*> all() { return {%s}; }' % ', '.join('make_%s()' % r[0] for r in table))
    o.append(MAIN)
    return '\n'.join(o)
HDR = {'Validator': 'CglLandPValidator.hpp', 'Cgl012Cut': 'Cgl012cut.hpp'}
NS = {'Validator': 'LAP::Validator', 'CglCutGenerator': 'AnyGenerator'}
MAIN = 'int main(int argc, char **argv) { return params_main(argc, argv); }'
DIRS = ['RedSplit', 'GMI', 'RedSplit2', 'OddHole', 'MixedIntegerRounding', 'LiftAndProject', 'KnapsackCover', 'AllDifferent', 'DuplicateRow', 'Clique', 'ZeroHalf', 'LandP']
