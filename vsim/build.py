"""Builds the package from /repo's current working tree, outside /repo, with the simulation hooks on.

python build.py  ->  prints the directory to put on sys.path.  The directory is named after the hash of every
source file, so an unchanged tree is not rebuilt; the compiler runs in parallel, one object per source, and
objects are reused by the hash of what they were made from.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VSIM_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VSIM_BUILD', os.path.join(HERE, 'build'))
PY = '/opt/vp/venv/bin/python'
HOOK_DEFINE = '-DCSHOGI_SIM'
VERSION = '4'


def tree_files():
    out = []
    for base in ('cshogi', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__',))
            for f in sorted(fs):
                if f.endswith(('.so', '.pyc', '.o', '.pyd')) or f in ('_cshogi.cpp', 'shogi_env.cpp', 'shogi_vec_env.cpp',
                                                                'shogi_env.c', 'shogi_vec_env.c'):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    out.append('setup.py')
    return out


def digest(files):
    h = hashlib.sha256(VERSION.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(HERE, 'vsim', 'hook.cpp'), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def extensions(root):
    """ext_modules of /repo's setup.py, without building anything."""
    code = r'''
import sys, json
import setuptools, Cython.Build
exts = []
Cython.Build.cythonize = lambda m, **kw: (exts.extend(m), m)[1]
setuptools.setup = lambda **kw: None
src = open('setup.py', encoding='utf-8').read()
exec(compile(src, 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
print(json.dumps([dict(name=e.name, sources=e.sources, include_dirs=e.include_dirs, define_macros=e.define_macros,
                       args=e.extra_compile_args, language=e.language) for e in exts]))
'''
    import json
    out = subprocess.check_output([PY, '-c', code], cwd=root, stderr=subprocess.DEVNULL)
    return json.loads(out.decode().strip().splitlines()[-1])


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
        raise SystemExit(3)


def build():
    files = tree_files()
    key = digest(files)
    dest = os.path.join(BUILD, 'tree-' + key)
    if os.path.exists(os.path.join(dest, '.ok')):
        return dest
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, '.ok')):
            return dest
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        for f in files:
            p = os.path.join(dest, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), p)
        objdir = os.path.join(BUILD, 'obj')
        os.makedirs(objdir, exist_ok=True)
        inc = [sysconfig_of('include'), sysconfig_of('numpy')]
        suffix = sysconfig_of('suffix')
        hdr = hashlib.sha256()
        for f in files:
            if f.startswith('src/') and not f.endswith('.cpp'):
                with open(os.path.join(dest, f), 'rb') as fh:
                    hdr.update(f.encode() + fh.read())
        jobs, exts = [], extensions(dest)
        for e in exts:
            objs = []
            for s in list(e['sources']):
                objs.append((e, s))
            if e['name'].endswith('_cshogi'):
                objs.append((e, '@hook'))
            e['objs'] = objs
            jobs += objs

        def one(job):
            e, s = job
            base = ['-O2', '-fwrapv', '-Wno-all', '-w', '-DNDEBUG', '-fPIC', '-std=c++17', '-msse4.2', '-mavx2', HOOK_DEFINE]
            if s == '@hook':
                src = os.path.join(HERE, 'vsim', 'hook.cpp')
            elif s.endswith('.pyx'):
                gen = os.path.join(dest, s[:-4] + '.gen.cpp')
                run([PY, '-m', 'cython', '--cplus', '-3', '-o', gen, s], dest)
                src = gen
                base = ['-O1' if x == '-O2' else x for x in base]
            else:
                src = os.path.join(dest, s)
            flags = base + ['-D%s%s' % (k, '=' + v if v else '') for k, v in e['define_macros']]
            flags += ['-I' + os.path.join(dest, d) for d in e['include_dirs']] + ['-I' + i for i in inc]
            with open(src, 'rb') as fh:
                body = fh.read()
            h = hashlib.sha256(hdr.digest() + body + repr([x.replace(dest, '') for x in flags]).encode()).hexdigest()[:24]
            obj = os.path.join(objdir, h + '.o')
            if not os.path.exists(obj):
                tmp = obj + '.%d.tmp' % os.getpid()
                run(['g++'] + flags + ['-c', src, '-o', tmp], dest)
                os.replace(tmp, obj)
            else:
                os.utime(obj)
            return job, obj

        # the big ones first
        order = {'cshogi/_cshogi.pyx': 0, 'src/osl_dfpn.cpp': 1, 'src/position.cpp': 2, 'src/generateMoves.cpp': 3}
        jobs.sort(key=lambda j: order.get(j[1], 9))
        made = {}
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for (e, s), o in ex.map(one, jobs):
                made[e['name'], s] = o
        for e in exts:
            out = os.path.join(dest, e['name'].replace('.', '/') + suffix)
            run(['g++', '-shared', '-o', out] + [made[e['name'], s] for _, s in e['objs']] + ['-lpthread'], dest)
        with open(os.path.join(dest, '.ok'), 'w') as f:
            f.write(key)
        # keep the build folder small: only the newest few trees and objects
        trees = sorted((t for t in os.listdir(BUILD) if t.startswith('tree-')),
                       key=lambda t: os.path.getmtime(os.path.join(BUILD, t)))
        for t in trees[:-4]:
            if t != os.path.basename(dest):
                shutil.rmtree(os.path.join(BUILD, t), ignore_errors=True)
        os_ = sorted(os.listdir(objdir), key=lambda t: os.path.getmtime(os.path.join(objdir, t)))
        for o in os_[:-200]:
            os.unlink(os.path.join(objdir, o))
    return dest


_cfg = None


def sysconfig_of(k):
    global _cfg
    if _cfg is None:
        out = subprocess.check_output([PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);'
                                       'print(numpy.get_include());print(sysconfig.get_config_var("EXT_SUFFIX"))'])
        a = out.decode().split()
        _cfg = {'include': a[0], 'numpy': a[1], 'suffix': a[2]}
    return _cfg[k]


if __name__ == '__main__':
    print(build())
