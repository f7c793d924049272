"""C18: wcc's structured control flow and code composition keep the meaning of every program."""
from vlib import core
from vlib.wpair import WasmPair
from checks import C03, C04, C11

EXTRA = '(push, TD) => ({G0: a => { push(a ^ 0x55n); return BigInt.asIntN(64, a * 3n + 1n); }, GD: a => { TD(a); return a + 1; }})'
def run():
    rep = core.Report('C18')
    b = core.Build(wcc=True)
    rep.rule = 'the statement trees, switch tables, loops, boolean trees (C03) and the expression trees, register pressure, lvalue, inlining, sequencing, argument and frame families (C04) and the variable length arrays and array parameters of C11 compiled by wcc, except the documented unsupported goto and nested case labels; run in node in lock-step with clang --target=wasm32'
    rep.assumptions = ['clang -O0 -fwrapv for wasm32 gives the C abstract machine for these (UB-free) programs', 'node executes WebAssembly as specified', 'goto and case labels inside nested statements are outside what wcc supports (diagnosed)']
    cs = list(C03.tree_cases()) + list(C03.switch_cases()) + list(C03.span_cases()) + list(C03.misc_cases())
    WasmPair(rep, b, shard=600).run(cs)
    WasmPair(rep, b, prelude=C03.BPRE, tag='bool/', shard=300).run(list(C03.bool_cases()))
    WasmPair(rep, b, prelude=C03.JPRE, tag='jump/', shard=300).run([c for c in C03.jump_cases() if 'goto' not in c.code])
    pre = C04.PRE.replace('extern ull', 'WIMP_ extern ull').replace('extern double GD', 'WIMP_ extern double GD')
    WasmPair(rep, b, prelude=pre, tag='comp/', extra=EXTRA, shard=400).run(list(C04.gens()))
    WasmPair(rep, b, tag='vla/', shard=400).run([c for c in list(C11.vla_cases()) + list(C11.vlaparam_cases()) if 'goto' not in c.code])
    return rep
