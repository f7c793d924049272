"""Single source of properties.jsonl and MANIFEST.json:  python3 -m vlib.props"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, level='model_checking', observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None},
                  _tech=tech, _note=note, _level=level))

prop('C01', 'Integer expressions have exactly the values and types C specifies (x86-64)',
 'For every integer operator, conversion, increment, compound assignment and pointer-arithmetic form, on every combination of operand types and for every operand value, a program compiled by xcc computes the value, and the result has the type, that the C standard prescribes for the LP64 target with two\'s-complement wrap-around. It makes no difference whether operands are variables or constants, whether the expression is folded at compile time or evaluated at run time, whether its value is stored, tested or discarded, or what kind of lvalue is modified.',
 ['programs', 'inputs'], 'all operators x ordered operand-type pairs x operand forms x operand values',
 'valtest.c and test.sh evaluate a few hundred hand-picked expressions, nearly all on small int values; a wrong width, signedness or folding rule for one type pair at one boundary value is not sampled.',
 ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/type.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/optimize.c', 'src/cc/arch/x64/ir_x64.c'],
 [('usual arithmetic conversions and folding', 'src/cc/frontend/fe_misc.c cast_numbers, new_expr_num_bop, new_expr_addsub, new_expr_cmp, make_cast'), ('instruction selection', 'src/cc/arch/x64/ir_x64.c ei_*')],
 'bounded-exhaustive enumeration of programs x operand values, run in lock-step against a reference semantics',
 'Every operator/type-pair/operand-form/boundary-value combination (and all 2^16 pairs at 8 bits) executed on the real compiler output and compared with the reference compiler in the same process. Trusts gcc -O0 -fwrapv as the C semantics.')
prop('C02', 'Floating-point arithmetic and conversions are IEEE-754 exact (x86-64)',
 'For every float/double operator, comparison, truth test, increment and compound assignment, and for every conversion between floating and integer types, compiled programs produce the correctly rounded IEEE-754 result, including for signed zeros, infinities, NaN, subnormals and integers that need rounding. Constant expressions folded by the compiler give the same bits as the same computation at run time.',
 ['programs', 'inputs'], 'all floating operators and conversions x type pairs x operand forms x pairs of IEEE boundary values',
 'fvaltest.c checks a few dozen expressions on ordinary values; NaN, signed zero, >=2^63, rounding of wide integers and folded-versus-run-time agreement are not exercised.',
 ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/ast.c', 'src/cc/backend/optimize.c', 'src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/ir_x64.c'],
 [('floating folding', 'src/cc/frontend/fe_misc.c'), ('conversions', 'src/cc/arch/x64/ir_x64.c ei_cast'), ('unordered comparisons', 'src/cc/arch/x64/ir_x64.c ei_cond, ei_jmp')],
 'bounded-exhaustive enumeration of programs x IEEE boundary operands, lock-step against a reference semantics',
 'All operator/conversion/type/form combinations over all pairs of ~110 boundary doubles/floats, compared bit for bit (NaN payload ignored) with gcc in the same process.')
from . import props_more  # noqa: F401,E402  (adds the remaining properties)

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in sorted(P, key=lambda p: p['id']):
        if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'], 'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['_tech'], 'level': p['_level'], 'level_note': p['_note']})
        else:
            na.append({'property': p['id'], 'reason': 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: every check drives the executables (and public library API) built from /repo in a private scratch copy.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    print(len(P), 'properties', len(checks), 'checks')
if __name__ == '__main__':
    import importlib
    importlib.import_module('vlib.props').main()
