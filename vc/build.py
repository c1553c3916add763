"""Compile /repo's current sources to LLVM IR.  Used on every run.

What the extraction drops (and nothing else):
  * floating constants without 'f'/'L' suffix (GCC's 'd' suffix included) are written with 'f': the project builds with
    g++ -fsingle-precision-constant, which gives them type float; clang has no such flag;
  * the '= {0, }' initialiser of variable-length arrays (clang rejects it) becomes a memset of the array.
The text is otherwise the repository's own, compiled with the project's macros and -m32.
"""
import os, re, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('C3P_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
OPT = '/usr/bin/opt' if os.path.exists('/usr/bin/opt') else 'opt'
DEFS = ['-D_GNU_SOURCE', '-DCONFIG_C3P_CBOR', '-DCONFIG_C3P_M2M_SUPPORT', '-DCONFIG_C3P_IMG_SUPPORT', '-DCONFIG_C3P_TRACE_ENABLED']
CXX = ['-m32', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-w'] + DEFS
PASSES = 'function(sroa<modify-cfg>,early-cse,simplifycfg,loop-simplify)'

# comments, strings and character constants pass through; a floating constant loses 'd' and gains 'f'
SUFFIX = re.compile(r'(//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|#\s*include[^\n]*)|(?<![\w.])((?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)([dDfFlL]?)(?![\w.])', re.S)
def fconst(m):
    if m.group(1) is not None: return m.group(1)
    return m.group(2) + (m.group(3) if m.group(3) in ('f', 'F', 'l', 'L') and m.group(3) else 'f')
VLAINIT = re.compile(r'(\b\w+\s+(\w+)\[[_a-z]\w*(?:\s*[-+*]\s*\d+)?\])\s*=\s*\{\s*0\s*,?\s*\}\s*;')

class Work:
    def __init__(s, tag):
        base = os.path.join(VERIF, '.work'); os.makedirs(base, exist_ok=True)
        s.dir = tempfile.mkdtemp(prefix=tag + '-', dir=base)
        s.src = os.path.join(s.dir, 'src')
        s.overlaid = False
    def overlay(s):
        if s.overlaid: return
        for root, d, files in os.walk(os.path.join(REPO, 'src')):
            rel = os.path.relpath(root, os.path.join(REPO, 'src'))
            os.makedirs(os.path.join(s.src, rel), exist_ok=True)
            for f in files:
                if not f.endswith(('.h', '.cpp', '.c', '.hpp')): continue
                t = open(os.path.join(root, f), encoding='latin-1').read()
                if 'Fonts' not in root:
                    t2 = VLAINIT.sub(r'\1; __builtin_memset(\2, 0, sizeof(\2));', SUFFIX.sub(fconst, t))
                else: t2 = t
                open(os.path.join(s.src, rel, f), 'w', encoding='latin-1').write(t2)
        s.overlaid = True
    def ir(s, tu, text=None):
        """tu: path relative to src, or a name with text given (a TU that includes repo headers)."""
        s.overlay()
        out = os.path.join(s.dir, tu.replace('/', '_') + '.ll')
        if text is not None:
            srcf = os.path.join(s.dir, tu); open(srcf, 'w').write(text)
        else: srcf = os.path.join(s.src, tu)
        cmd = [CLANG] + CXX + ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-S', '-I', s.src, srcf, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError('clang failed on %s:\n%s' % (tu, r.stderr[:3000]))
        r = subprocess.run([OPT, '-S', '-passes=' + PASSES, out, '-o', out + '.o'], capture_output=True, text=True)
        if r.returncode: raise BuildError('opt failed on %s:\n%s' % (tu, r.stderr[:3000]))
        return open(out + '.o').read()
    def close(s):
        shutil.rmtree(s.dir, ignore_errors=True)

class BuildError(Exception): pass

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]
