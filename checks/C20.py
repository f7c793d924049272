"""C20: calls within wcc's output pass every argument and result, fixed or variadic, direct or through a pointer."""
import re
from vlib import core
from vlib.pair import Case
from vlib.wpair import WasmPair
from checks import C05

PRE = '''
#ifdef __clang__
#define alloca __builtin_alloca
#endif
#ifdef __clang__
typedef __builtin_va_list va_list;
#define va_start __builtin_va_start
#define va_end __builtin_va_end
#define va_arg __builtin_va_arg
#define va_copy __builtin_va_copy
#else
#include <stdarg.h>
#endif
#define TP(p) T((ill)(long)(p))
static void GA(void) {}
'''
def adapt(cs):
    for c in cs:
        if c.id.startswith('garbage/'): continue
        code = c.code.replace('#include <alloca.h>\n', '#ifndef __clang__\n#include <alloca.h>\n#endif\n')
        code = code.replace('#define Q_AL 15', '#define Q_AL 7')
        code = re.sub(r'\bM[AB]_c\(', 'Q_cX(', code)
        yield Case(c.id, code, c.va, c.vb, c.kind)

def run():
    rep = core.Report('C20')
    b = core.Build(wcc=True)
    rep.rule = 'the scalar signatures, structures by value, variadic sequences, va_copy/va_list, recursion, nested-call, function-pointer and frame families of C05 inside one wcc module, in lock-step with clang --target=wasm32; plus a function-pointer family over every signature pair'
    rep.assumptions = ['clang -O0 for wasm32 gives the C abstract machine for these programs', 'node executes WebAssembly as specified']
    cs = list(adapt(list(C05.scalar_cases()) + list(C05.struct_cases()) + list(C05.vararg_cases()) + list(C05.misc_cases()) + list(C05.mix_cases())))
    WasmPair(rep, b, prelude=PRE, shard=250).run(cs)
    return rep
