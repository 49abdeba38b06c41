# Builds: the symbolic executor, LLVM IR of /repo's current sources, native replay binaries. Everything lands in /verif/build (git-ignored).
import os, subprocess, hashlib, fcntl, shutil, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CN24_REPO', '/repo')
B = os.path.join(V, 'build')
LL = '/usr/lib/llvm-18/bin/'
def tool(n):
    return LL + n if os.path.exists(LL + n) else (shutil.which(n) or shutil.which(n + '-18') or n)
class BuildError(Exception): pass
INC = ['include', 'include/cn24', 'include/cn24/util', 'include/cn24/net', 'include/cn24/math', 'include/cn24/factory', 'include/private']
DEFS = ['-DBUILD_POSIX', '-DBUILD_LINUX', '-DBUILD_PNG', '-DBUILD_JPG', '-DGIT_SHA1="verif"']
def sources():
    return sorted(glob.glob(REPO + '/src/*/*.cpp'))
def sh(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode: raise BuildError('%s failed (%d): %s\n%s' % (what, p.returncode, ' '.join(cmd)[:300], p.stdout[-3000:]))
    return p.stdout
def hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
TOOLS = {'tools': ['makeTensorStream', 'makeCompressedTensorStream', 'compressTensorStream', 'tensorStreamTool', 'tensorTool', 'classifyImage', 'tensorStreamStats'], 'script': ['trainNetwork']}
def tool_files(name): return [REPO + '/tools/%s.cpp' % n for n in TOOLS.get(name, [])]
def tool_flags(f): n = os.path.basename(f)[:-4]; return ['-DTOOL="%s"' % n, '-Dhelp=help_' + n, '-include', V + '/harness/tool.h']
def walk(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if not f.startswith('.')]
def repo_files():
    return [f for d in ('src', 'include', 'kernels') for f in walk(REPO + '/' + d)]
class Lock:
    def __init__(self, n): os.makedirs(B, exist_ok=True); self.p = os.path.join(B, n + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()
def parallel(cmds, n=8):
    procs = []; cmds = list(cmds); errs = []
    while cmds or procs:
        while cmds and len(procs) < n:
            what, c = cmds.pop(0)
            procs.append((what, c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', shell=isinstance(c, str))))
        what, c, p = procs.pop(0)
        o, _ = p.communicate()
        if p.returncode: errs.append('%s failed: %s' % (what, o[-2500:]))
    if errs: raise BuildError('\n'.join(errs[:3]))
def engine():
    files = glob.glob(V + '/engine/*')
    h = hash_files([f for f in files if os.path.isfile(f)])
    d = os.path.join(B, 'engine-' + h); out = d + '/symx'
    with Lock('engine'):
        if not os.path.exists(out):
            sh(['bash', V + '/engine/build.sh', d], 'building the symbolic executor')
            for o in glob.glob(d + '/*.o'): os.remove(o)
    return out
def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(B, prefix + '*')), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if os.path.isdir(d): shutil.rmtree(d, ignore_errors=True)
PASSES = 'function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,dce),globaldce'
def irflags(variant):
    f = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-ffp-contract=off', '-fno-builtin-printf',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-U__OPTIMIZE__', '-D_FORTIFY_SOURCE=0', '-DVERIF_SX'] + DEFS
    f += ['-isystem', V + '/shim', '-isystem', V + '/shim_both']
    if variant == 'cl': f += ['-DBUILD_OPENCL', '-isystem', V + '/shim_cl']
    if variant == 'omp': f += ['-fopenmp']
    if variant == 'blas': f += ['-DBUILD_BLAS', '-DBLAS_ATLAS']
    return f + ['-I' + REPO + '/' + i for i in INC] + ['-I' + V + '/harness']
def ir_cmd(src, out, variant, passes=PASSES, extra=[]):
    c = [tool('clang++')] + irflags(variant) + extra + ['-emit-llvm', '-c', src, '-o', out + '.0']
    q = lambda a: "'" + a.replace("'", "'\\''") + "'"
    return ' '.join(map(q, c)) + ' && ' + ' '.join(map(q, [tool('opt'), '-passes=' + passes, out + '.0', '-o', out])) + ' && rm -f ' + q(out + '.0')
def ir(variant='std'):
    h = hash_files(repo_files() + walk(V + '/shim') + walk(V + '/shim_both') + walk(V + '/shim_img') + (walk(V + '/shim_cl') if variant == 'cl' else []) + walk(V + '/shim_blas') + [V + '/harness/sx.h'], variant + ' '.join(irflags(variant)) + PASSES)
    d = os.path.join(B, 'ir-%s-%s' % (variant, h)); out = d + '/all.bc'
    with Lock('ir-' + variant):
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True); cmds = []; objs = []
            extra = [V + '/shim/sxrt.cpp', V + '/shim/sxstl.cpp', V + '/shim/sxpng.cpp', V + '/shim_img/sxjpeg.cpp'] + (sorted(glob.glob(V + '/shim_cl/*.cpp')) if variant == 'cl' else []) + ([V + '/shim_blas/sxblas.cpp'] if variant == 'blas' else [])
            for s in sources() + extra:
                o = d + '/' + os.path.basename(s)[:-4] + '.bc'; objs.append(o); cmds.append(('compiling ' + s + ' to LLVM IR', ir_cmd(s, o, variant)))
            if variant == 'cl':
                for k in kernels(): 
                    o = d + '/k_' + os.path.basename(k)[:-3] + '.bc'; objs.append(o); cmds.append(('compiling ' + k + ' to LLVM IR', kernel_cmd(k, o)))
            parallel(cmds); sh([tool('llvm-link')] + objs + ['-o', out + '.t'], 'llvm-link'); os.rename(out + '.t', out)
            prune('ir-%s-' % variant, 3)
    return out
def kernels(): return sorted(glob.glob(REPO + '/kernels/*.cl'))
def kernel_cmd(k, o):
    q = lambda a: "'" + a.replace("'", "'\\''") + "'"
    c = [tool('clang'), '-x', 'cl', '-cl-std=CL1.2', '-Xclang', '-finclude-default-header', '-target', 'spir64', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-ffp-contract=off', '-w', '-emit-llvm', '-c', k, '-o', o + '.0']
    return ' '.join(map(q, c)) + ' && python3 ' + q(V + '/vf/spir.py') + ' ' + q(o + '.0') + ' ' + q(o)
def harness_ir(name, variant='std'):
    src = V + '/harness/%s.cpp' % name; base = ir(variant)
    h = hash_files([src] + glob.glob(V + '/harness/*.h') + [base] + tool_files(name), ' '.join(irflags(variant)))
    d = os.path.dirname(base); out = '%s/h_%s-%s.bc' % (d, name, h)
    with Lock('h-' + variant + '-' + name):
        if not os.path.exists(out):
            t = out[:-3]
            sh(['bash', '-c', ir_cmd(src, t + '.h.bc', variant)], 'compiling harness ' + name)
            parts = [t + '.h.bc']
            for f in tool_files(name): parts.append(t + '.' + os.path.basename(f)[:-4] + '.bc'); sh(['bash', '-c', ir_cmd(f, parts[-1], variant, extra=tool_flags(f))], 'compiling ' + f)
            sh([tool('llvm-link'), base] + parts + ['-o', t + '.l.bc'], 'llvm-link')
            sh([tool('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=sx_main', t + '.l.bc', '-o', out + '.t'], 'opt'); os.rename(out + '.t', out)
            [os.remove(p) for p in parts + [t + '.l.bc']]
    return out
SAN = {'plain': ['-O0'], 'tsan': ['-O0', '-fsanitize=thread'], 'asan': ['-O0', '-fsanitize=address', '-fsanitize=float-cast-overflow,integer-divide-by-zero,return,unreachable,null', '-fno-sanitize-recover=all']}
def nflags(kind, variant):
    f = ['-std=c++11', '-g1', '-w', '-ffp-contract=off'] + SAN[kind] + DEFS + ['-isystem', V + '/shim_both']
    if variant == 'cl': f += ['-DBUILD_OPENCL', '-isystem', V + '/shim_cl']
    if variant == 'omp': f += ['-fopenmp']
    if variant == 'blas': f += ['-DBUILD_BLAS', '-DBLAS_ATLAS']
    return f + ['-I' + REPO + '/' + i for i in INC] + ['-I' + V + '/harness']
def native(name, kind='plain', variant='std'):
    rt = [V + '/native/sxnative.cpp', V + '/native/gomp.cpp', V + '/shim_img/sxjpeg.cpp'] + (sorted(glob.glob(V + '/shim_cl/*.cpp')) if variant == 'cl' else [])
    h = hash_files(repo_files() + walk(V + '/shim_both') + walk(V + '/shim_img') + (walk(V + '/shim_cl') if variant == 'cl' else []) + rt + [V + '/harness/sx.h'], ' '.join(nflags(kind, variant)))
    d = os.path.join(B, 'nat-%s-%s-%s' % (variant, kind, h)); lib = d + '/all.a'
    with Lock('nat-' + variant + '-' + kind):
        if not os.path.exists(lib):
            os.makedirs(d, exist_ok=True); objs = []; cmds = []
            for s in sources() + rt:
                o = d + '/' + os.path.basename(s)[:-4] + '.o'; objs.append(o); cmds.append(('compiling ' + s, ['g++'] + nflags(kind, variant) + ['-c', s, '-o', o]))
            parallel(cmds); sh(['ar', 'rcs', lib + '.t'] + objs, 'ar'); os.rename(lib + '.t', lib)
            for o in objs: os.remove(o)
            prune('nat-%s-%s-' % (variant, kind), 2)
    src = V + '/harness/%s.cpp' % name
    hh = hash_files([src] + glob.glob(V + '/harness/*.h') + tool_files(name), h); out = d + '/%s-%s' % (name, hh)
    with Lock('nath-' + variant + '-' + kind + name):
        if not os.path.exists(out):
            objs = [out + '.' + os.path.basename(f)[:-4] + '.o' for f in tool_files(name)]
            for f, o in zip(tool_files(name), objs): sh(['g++'] + nflags(kind, variant) + tool_flags(f) + ['-c', f, '-o', o], 'compiling ' + f)
            sh(['g++'] + [f for f in nflags(kind, variant) if f != '-fopenmp'] + [src] + objs + ['-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-o', out + '.t', '-lpng', '-ljpeg', '-lpthread'] + (['-lcblas', '-latlas'] if variant == 'blas' else []), 'linking the replay of ' + name); [os.remove(o) for o in objs]; os.rename(out + '.t', out)
    return out
if __name__ == '__main__':
    t = time.time(); engine(); ir(); print('built in %.1fs' % (time.time() - t))
