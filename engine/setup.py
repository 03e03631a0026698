"""checks that the tools the framework needs are present (nothing to build ahead of a check)"""
import shutil, subprocess, sys
import z3
import build as B
ok = True
for t in (B.LLVM + 'clang++', 'cvc5', 'valgrind'):
    if not (shutil.which(t) or subprocess.run(['test', '-x', t]).returncode == 0): print('missing', t); ok = False
print('z3', z3.get_version_string(), 'tools', 'present' if ok else 'MISSING')
sys.exit(0 if ok else 1)
