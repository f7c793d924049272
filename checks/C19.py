"""C19: wcc lays out, initialises and accesses objects as C defines."""
from vlib import core
from vlib.wpair import WasmPair, references_disagree
from checks import C06, C07

def run():
    rep = core.Report('C19')
    b = core.Build(wcc=True)
    rep.rule = 'the layout, member-access and bit-field families of C06 and the initialiser families of C07 compiled by wcc; run in node in lock-step with clang --target=wasm32 (initialisers on which native gcc and clang disagree decide nothing)'
    rep.assumptions = ['clang for wasm32 and gcc decide the meaning of an initialiser', 'node executes WebAssembly as specified']
    WasmPair(rep, b, shard=300).run(list(C06.layout_cases()) + list(C06.bit_cases()) + list(C06.misc_cases()))
    d = core.scratch('c19')
    pre = '#define TI(x) T((int)(x))\n'
    cs = C07.valid(list(C07.shape_cases()) + list(C07.const_cases()) + list(C07.addr_cases()) + list(C07.string_cases()) + list(C07.auto_cases()), d)
    w = WasmPair(rep, b, prelude=pre, tag='init/', shard=400)
    w.run(cs, unreliable=references_disagree(pre))
    rep.count('reference_disagreements', w.dropped)
    return rep
