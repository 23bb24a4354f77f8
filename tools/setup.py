"""Checks that the tools the framework needs are installed (everything else is built per check from /repo)."""
import os, shutil, sys
import z3
need = ['clang++-18', 'g++', 'ar', 'cvc5']
ok = True
for n in need:
    if not shutil.which(n) and not (n == 'clang++-18' and shutil.which('clang++')):
        print('missing', n); ok = False
for n in ('opt', 'llvm-link', 'llvm-cxxfilt'):
    if not os.path.exists('/usr/lib/llvm-18/bin/' + n):
        print('missing', n); ok = False
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('tools present' if ok else 'tools missing', 'z3', z3.get_version_string())
sys.exit(0 if ok else 1)
