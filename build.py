#!/usr/bin/env python3
"""Builds the guest library image from /repo's working tree and the simulator host.
Everything goes to /verif/build/<content hash>/ (git-ignored)."""
import hashlib, os, re, subprocess, sys, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
NLIB = 4
CFLAGS = ['-std=gnu99', '-fPIC', '-O1', '-g', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-builtin-printf', '-fno-builtin-puts',
          '-fno-builtin-fprintf', '-fno-builtin-putchar', '-ffp-contract=off']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def sources():
    base = os.path.join(REPO, 'heclib/heclib_c')
    txt = open(os.path.join(base, 'CMakeLists.txt')).read()
    txt = re.sub(r'#.*', '', txt)
    srcs = []
    for m in re.findall(r'[\w./+-]+\.c\b', txt):
        p = os.path.join(base, m)
        if p not in srcs:
            srcs.append(p)
    srcs.append(os.path.join(REPO, 'heclib/hecdss/hecdss.c'))
    return srcs

def allfiles():
    out = []
    for root in ('heclib/heclib_c', 'heclib/hecdss'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith(('.c', '.h', '.txt')):
                    out.append(os.path.join(d, f))
    for f in os.listdir(os.path.join(VERIF, 'sim')):
        if f.endswith(('.c', '.h', '.cpp', '.hpp')):
            out.append(os.path.join(VERIF, 'sim', f))
    out.append(os.path.abspath(__file__))
    return sorted(out)

def find_libz():
    for p in ('/usr/lib/x86_64-linux-gnu/libz.a', '/usr/lib/libz.a', '/usr/local/lib/libz.a', '/repo/_build/_deps/zlib-build/libzlibstatic.a'):
        if os.path.exists(p):
            return p
    raise RuntimeError('no static zlib found')

def wraps():
    s = open(os.path.join(VERIF, 'sim/shim.c')).read()
    return sorted(set(re.findall(r'__wrap_(\w+)\(', s)))

def build(verbose=False):
    h = hashlib.sha256()
    for f in allfiles():
        h.update(f.encode()); h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]
    root = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
    out = os.path.join(root, key)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    os.makedirs(root, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(os.path.join(tmp, 'o'))
    inc = ['-I', os.path.join(REPO, 'heclib/heclib_c/src/headers'), '-I', os.path.join(REPO, 'heclib/hecdss')]
    objs, jobs = [], []
    for i, s in enumerate(sources()):
        o = os.path.join(tmp, 'o', '%03d_%s.o' % (i, os.path.basename(s)[:-2])); objs.append(o)
        jobs.append(['gcc'] + CFLAGS + inc + ['-c', s, '-o', o])
    so = os.path.join(tmp, 'o', 'shim.o')
    jobs.append(['gcc', '-O2', '-g', '-fPIC', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin', '-c', os.path.join(VERIF, 'sim/shim.c'), '-o', so])
    hobjs = []
    for f in sorted(os.listdir(os.path.join(VERIF, 'sim'))):
        if f.endswith('.cpp'):
            o = os.path.join(tmp, 'o', 'host_' + f[:-4] + '.o'); hobjs.append(o)
            jobs.insert(0, ['g++', '-std=c++17', '-O2', '-g', '-w', '-fno-stack-protector'] + inc + ['-I', os.path.join(VERIF, 'sim'), '-c', os.path.join(VERIF, 'sim', f), '-o', o])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))
    wl = ['-Wl,--wrap=' + w for w in wraps()]
    lib = os.path.join(tmp, 'libdss0.so')
    # stubs for symbols nothing defines (dead references in the library)
    defd = set(); und = set()
    for l in sh(['nm'] + objs).splitlines():
        m = re.match(r'^\s*([0-9a-f]+)?\s+([A-Za-z])\s+(\S+)$', l)
        if m:
            (und if m.group(2) in 'Uw' else defd).add(m.group(3))
    extra = []
    missing = sorted(s for s in und - defd if not s.startswith('_') and s not in wraps())
    if missing:
        probe = os.path.join(tmp, 'probe.c')
        open(probe, 'w').write('#include <dlfcn.h>\n#include <stdio.h>\nint main(int c,char**v){dlopen("libm.so.6",RTLD_NOW|RTLD_GLOBAL);for(int i=1;i<c;i++)if(!dlsym(RTLD_DEFAULT,v[i]))puts(v[i]);return 0;}\n')
        sh(['gcc', probe, '-o', os.path.join(tmp, 'probe'), '-ldl'])
        zsyms = set(re.findall(r' T (\S+)', subprocess.run(['nm', find_libz()], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout))
        un = [s for s in sh([os.path.join(tmp, 'probe')] + missing).split() if s not in zsyms and s not in ('stat', 'fstat', 'lstat')]
        if un:
            c = os.path.join(tmp, 'stubs.c')
            open(c, 'w').write('extern void __wrap_abort(void);\n' + ''.join('void %s(void){__wrap_abort();}\n' % s for s in un))
            o = os.path.join(tmp, 'o', 'stubs.o'); sh(['gcc', '-fPIC', '-w', '-fno-builtin', '-c', c, '-o', o]); extra.append(o)
            if verbose: print('stubbed undefined symbols:', un)
    sh(['gcc', '-shared', '-o', lib] + objs + [so] + extra + ['-Wl,-Bsymbolic', '-Wl,-z,now', '-Wl,-z,relro'] + wl + [find_libz(), '-lm'])
    for i in range(1, NLIB):
        shutil.copyfile(lib, os.path.join(tmp, 'libdss%d.so' % i))
    sh(['g++', '-o', os.path.join(tmp, 'dsssim')] + hobjs + ['-ldl', '-rdynamic'])
    u = sorted(set(l.split()[1].split('@')[0] for l in sh(['nm', '-D', '-u', lib]).splitlines() if len(l.split()) > 1))
    open(os.path.join(tmp, 'undefined.txt'), 'w').write('\n'.join(u) + '\n')
    shutil.rmtree(os.path.join(tmp, 'o'))
    open(os.path.join(tmp, 'ok'), 'w').write(key)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep only the newest few builds
    try:
        ds = sorted((os.path.join(root, d) for d in os.listdir(root) if re.fullmatch(r'[0-9a-f]{16}', d)), key=os.path.getmtime)
        for d in ds[:-6]:
            if d != out: shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass
    return out

if __name__ == '__main__':
    print(build(verbose=True))
