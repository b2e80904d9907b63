"""Compile /repo's current sources (and a harness) to LLVM IR and to native objects."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
GXX = '/usr/bin/g++'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRFLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fPIC',
           '-fsemantic-interposition', '-ffp-contract=off', '-fno-math-errno',
           '-fno-strict-aliasing', '-fno-discard-value-names', '-w']
NATFLAGS = ['-std=c++14', '-O1', '-g', '-fPIC', '-fsemantic-interposition', '-ffp-contract=off',
            '-fno-inline', '-w']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[-4000:])
    return r


class Build:
    def __init__(self, keep=None):
        self.dir = keep or tempfile.mkdtemp(prefix='vpb_')
        self.own = keep is None
        os.makedirs(self.dir, exist_ok=True)
        inc = os.path.join(self.dir, 'inc')
        os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, 'cgmf_config.h'), 'w') as f:
            f.write('#ifndef __CGMF_CONFIG_H__\n#define __CGMF_CONFIG_H__\n'
                    '#define INSTALL_DATADIR "%s/data"\n#define BUILD_DATADIR "%s/data"\n#endif\n'
                    % (REPO, REPO))
        self.inc = ['-I' + REPO + '/libcgmf/include', '-I' + REPO + '/libcgmf/src', '-I' + REPO + '/libcgmf', '-I' + inc,
                    '-I' + os.path.join(HERE, 'harness')]

    def close(self):
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    def lib_sources(self):
        return sorted(glob.glob(REPO + '/libcgmf/src/*.cpp'))

    def ir_one(self, src, defs=()):
        base = os.path.basename(src)[:-4]
        tag = hashlib.md5((src + ' '.join(defs)).encode()).hexdigest()[:6]
        out = os.path.join(self.dir, base + '.' + tag + '.ll')
        if os.path.exists(out):
            return out
        raw = out + '.raw'
        run([CLANG] + IRFLAGS + list(defs) + self.inc + ['-S', '-emit-llvm', '-o', raw, src])
        run([OPT, '-S', '-passes=function(sroa,simplifycfg,adce)', raw, '-o', out + '.tmp'])
        os.rename(out + '.tmp', out)
        os.unlink(raw)
        return out

    def obj_one(self, src, defs=(), san=False):
        base = os.path.basename(src)[:-4]
        tag = hashlib.md5((src + ' '.join(defs) + str(san)).encode()).hexdigest()[:6]
        out = os.path.join(self.dir, base + '.' + tag + '.o')
        if os.path.exists(out):
            return out
        fl = NATFLAGS + (['-fsanitize=address', '-fno-omit-frame-pointer'] if san else [])
        run([GXX] + fl + list(defs) + self.inc + ['-c', '-o', out + '.tmp', src])
        os.rename(out + '.tmp', out)
        return out

    def many(self, fn, items):
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(lambda a: fn(*a), items))

    def native(self, harness, extra=(), defs=(), san=False, srcs=None, out=None):
        """link harness + native runtime + library sources; harness definitions take priority"""
        items = [(harness, defs, san), (os.path.join(HERE, 'vp', 'native_rt.cpp'), (), san)]
        items += [(s, defs if s in extra else (), san) for s in list(extra)]
        items += [(s, (), san) for s in (self.lib_sources() if srcs is None else srcs)]
        objs = self.many(self.obj_one, items)
        exe = out or os.path.join(self.dir, os.path.basename(harness)[:-4] + ('.san' if san else '') + '.exe')
        run([GXX] + (['-fsanitize=address'] if san else []) + ['-o', exe] + objs +
            ['-Wl,--allow-multiple-definition'])
        return exe
