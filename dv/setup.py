"""nothing to build ahead of time: every check extracts and compiles from /repo itself"""
import subprocess, sys
for c in (['clang', '--version'], ['mpicc', '--version'], ['z3', '--version'], ['cvc5', '--version']):
    subprocess.run(c, stdout=subprocess.DEVNULL, check=True)
import z3
