"""compile a contract file against /repo's current headers to LLVM bitcode (for the verifier) or natively"""
import os, subprocess, hashlib
REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ['-DFASTFLOAT_FAST_FLOAT_H', '-DNANOSTL__NULLPTR', '-include', 'stddef.h', '-fpermissive']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def bitcode(src, out, extra=()):
    ll = out + '.0.bc'
    run(['clang++-18', '-std=c++11', '-w', '-DVP_SYM'] + [d for d in DEFS if d != '-fpermissive'] +
        ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-discard-value-names',
         '-gline-tables-only', '-emit-llvm', '-c', src, '-o', ll] + list(extra))
    run(['opt-18', '-passes=function(sroa,simplifycfg,instsimplify,loop-simplify)', ll, '-o', out])
    os.unlink(ll)
    return out
