"""Builds everything a check needs from /repo's current working tree.

Artifacts live in /verif/build (git-ignored), keyed by a hash of the sources they
come from, so nothing stale is ever used."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
WOD = '/opt/wod'
TF = WOD + '/tf/tensorflow'
PY = '/opt/venv/bin/python'
PKG = SRC + '/waymo_open_dataset'
B = os.environ.get('VERIF_BUILD', VERIF + '/build')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (str(cmd)[:200], r.stdout[-2500:]))
    return r.stdout


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def walk(exts, skip=()):
    r = []
    for d, dn, fn in os.walk(PKG):
        dn[:] = [x for x in dn if x not in ('__pycache__',)]
        for f in fn:
            if f.endswith(exts) and not f.endswith(skip or ('\0',)):
                r.append(os.path.join(d, f))
    return r


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, '.lock-' + name)

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(prefix, keep, n=2):
    ds = sorted(glob.glob(os.path.join(B, prefix + '-*')), key=os.path.getmtime, reverse=True)
    for d in [d for d in ds if d != keep][n:]:
        shutil.rmtree(d, ignore_errors=True)


def extractor():
    src = glob.glob(VERIF + '/tools/extract/*')
    out = os.path.join(B, 'extract-' + digest(src))
    with Lock('extract'):
        if not os.path.exists(out):
            sh(['bash', VERIF + '/tools/extract/build.sh', out])
    return out


def ccdir():
    """objects of all C++ libraries of the repository, generated headers"""
    files = walk(('.cc', '.h', '.proto', 'BUILD'))
    key = digest(files, SRC)
    d = os.path.join(B, 'cc-' + key)
    with Lock('cc'):
        if not os.path.exists(d + '/gen.ok'):
            os.makedirs(d, exist_ok=True)
            sh(['/usr/bin/python3', WOD + '/gen.py', SRC, d])
            t = targets(d, lambda o: o.startswith(d + '/gen/') and o.endswith('.pb.h'))
            sh(['ninja', '--quiet', '-C', d] + t)
            open(d + '/gen.ok', 'w').close()
            prune('cc', d)
        os.utime(d)
    return d


def targets(d, want):
    r = []
    for l in open(d + '/build.ninja'):
        if l.startswith('build '):
            for o in l[6:].split(': ')[0].split():
                if want(o):
                    r.append(o)
    return r


SKIP = ('_test.o', '_main.o', '_ops.o', 'create_submission.o', 'test_utils.o')


def objects(d):
    def want(o):
        return o.startswith(d + '/obj/') and not o.endswith(SKIP) and '/ops/' not in o
    t = targets(d, want)
    with Lock('obj'):
        sh(['ninja', '--quiet', '-C', d] + t)
    return t


CXXFLAGS = ['-std=c++17', '-DNDEBUG', '-fPIC', '-pthread', '-w', '-D_GLIBCXX_USE_CXX11_ABI=1', '-DEIGEN_MAX_ALIGN_BYTES=64']
LINK = ['-L' + TF, '-Wl,-rpath,' + TF, '-l:libtensorflow_framework.so.2', '-lglog', '-lrt', '-lm', '-lpthread']


def driver(name, d=None):
    d = d or ccdir()
    src = [VERIF + '/drivers/%s.cc' % name, VERIF + '/drivers/wire.h']
    out = os.path.join(d, 'drv-%s-%s' % (name, digest(src)))
    with Lock('drv-' + name):
        if not os.path.exists(out):
            res = {}

            def comp():
                try:
                    sh(['g++', '-O1'] + CXXFLAGS + ['-I' + SRC, '-I' + d + '/gen', '-isystem', TF + '/include', '-c', src[0], '-o', out + '.o'])
                except BuildError as e:
                    res['e'] = e
            t = threading.Thread(target=comp)
            t.start()
            o = objects(d)
            t.join()
            if 'e' in res:
                raise res['e']
            sh(['g++', out + '.o'] + o + LINK + ['-o', out + '.tmp'])
            os.rename(out + '.tmp', out)
    return out


def ir(tu, d=None, ext=None):
    """typed AST of one translation unit"""
    d = d or ccdir()
    ext = ext or extractor()
    out = os.path.join(d, 'ir-%s-%s.json' % (os.path.basename(ext)[-8:], tu.replace('/', '_')))
    with Lock('ir-' + tu.replace('/', '_')):
        if not os.path.exists(out):
            res = sh(['clang++-18', '-print-resource-dir']).strip()
            sh([ext, SRC, out + '.tmp', PKG + '/' + tu, '--', '-resource-dir', res] + CXXFLAGS + [
                '-I' + SRC, '-I' + d + '/gen', '-isystem', TF + '/include'])
            os.rename(out + '.tmp', out)
    return out


def protos():
    """generated python protos (in a scratch package tree) and the C++ view of the descriptors"""
    files = walk(('.proto',))
    tool = VERIF + '/tools/protodesc.py'
    d = os.path.join(B, 'pb-' + digest(files + [tool], SRC))
    with Lock('pb'):
        if not os.path.exists(d + '/ok'):
            os.makedirs(d, exist_ok=True)
            rel = [os.path.relpath(f, SRC) for f in sorted(files)]
            sh(['/usr/bin/protoc', '-I.', '--python_out=' + d] + rel, cwd=SRC)
            sh([PY, tool, SRC, d + '/protos.json'])
            open(d + '/ok', 'w').close()
            prune('pb', d)
    return d


def pytree():
    """An importable copy of the python sources together with freshly generated
    *_pb2.py, so that a check never depends on (or writes) generated files in /repo."""
    files = walk(('.py',), ('_pb2.py', '_test.py'))
    pb = protos()
    d = os.path.join(B, 'py-' + digest(files, SRC + pb))
    with Lock('py'):
        if not os.path.exists(d + '/ok'):
            for f in files:
                o = os.path.join(d, os.path.relpath(f, SRC))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                shutil.copyfile(f, o)
            for root, _, fn in os.walk(pb):
                for f in fn:
                    if f.endswith('.py'):
                        o = os.path.join(d, os.path.relpath(os.path.join(root, f), pb))
                        os.makedirs(os.path.dirname(o), exist_ok=True)
                        shutil.copyfile(os.path.join(root, f), o)
            open(d + '/ok', 'w').close()
            prune('py', d)
    return d


if __name__ == '__main__':
    t = time.time()
    th = [threading.Thread(target=extractor), threading.Thread(target=pytree)]
    [x.start() for x in th]
    d = ccdir()
    objects(d)
    [x.join() for x in th]
    for n in sorted(glob.glob(VERIF + '/drivers/*.cc')):
        driver(os.path.basename(n)[:-3], d)
    print('built in %.1fs' % (time.time() - t))
