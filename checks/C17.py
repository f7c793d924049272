"""C17: wcc's WebAssembly code evaluates every integer and floating expression as C defines it."""
from vlib import core
from vlib.wpair import WasmPair
from checks import C01, C02

def run():
    rep = core.Report('C17')
    b = core.Build(wcc=True)
    rep.rule = 'the operator x type x operand-form x boundary-value spaces of C01 and C02 compiled by wcc: every program run in node in lock-step with clang --target=wasm32; result, trace, traps and the stack pointer compared'
    rep.assumptions = ['clang -O0 -fwrapv for wasm32 gives the C abstract machine for these (UB-free) programs', 'node executes WebAssembly as specified', 'long in a case is read as long long (long is 32 bits on wasm32)']
    WasmPair(rep, b, shard=400).run(list(C01.cases()))
    WasmPair(rep, b, prelude=C02.PRE, tag='fp/', shard=80).run(list(C02.cases()))
    return rep
