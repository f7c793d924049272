#!/usr/bin/env python3
"""Checks that the tools the checks use are present. Nothing is built here: each check builds from /repo."""
import shutil, sys
missing = [t for t in ('gcc', 'make', 'python3', 'ld', 'as', 'objdump', 'readelf', 'clang', 'node', 'wasm-ld', 'llvm-mc', 'llvm-ar') if not (shutil.which(t) or shutil.which(t, path='/usr/lib/llvm-18/bin'))]
print('missing tools: %s' % missing if missing else 'setup ok')
sys.exit(0)
