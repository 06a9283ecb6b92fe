"""From /repo's current C sources to LLVM IR (compiled, linked, never run)."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang-18'
OPT = 'opt-18'
LINK = 'llvm-link-18'
MPIINC = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
CFLAGS = ['-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-g', '-S', '-emit-llvm', '-std=gnu11',
          '-fno-discard-value-names', '-Wno-error', '-D__NO_INLINE__']


class AnalysisError(Exception):
    """the analysis itself could not be carried out (neither hold nor violation)"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise AnalysisError('%s failed: %s' % (' '.join(cmd[:3]), r.stderr.decode(errors='replace')[:2000]))
    return r.stdout


def scratch():
    d = tempfile.mkdtemp(prefix='bfsa.')
    import atexit
    atexit.register(shutil.rmtree, d, True)
    return d


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = scratch()
    return _tmp


def compile_tu(src, incs=(), defs=(), out=None):
    d = tmp()
    out = out or os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', src) + '.ll')
    inc = [REPO + '/src'] + MPIINC + list(incs)
    run([CLANG] + CFLAGS + ['-I' + i for i in inc] + ['-D' + x for x in defs] + [src, '-o', out])
    return out


def header_functions():
    """functions declared in the project's headers: the library's interfaces between its own parts"""
    names = set()
    for h in ('bigfile.h', 'bigfile-internal.h', 'bigfile-mpi.h', 'mp-mpiu.h'):
        p = os.path.join(REPO, 'src', h)
        txt = open(p, errors='replace').read()
        txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
        txt = re.sub(r'//[^\n]*', '', txt)
        txt = re.sub(r'^\s*#.*?(?<!\\)$', '', txt, flags=re.M)
        for m in re.finditer(r'\b([A-Za-z_]\w*)\s*\(', txt):
            names.add(m.group(1))
    return names


def link_and_opt(lls, keep, passes='always-inline,function(sroa,early-cse)', extra_keep=()):
    """link, force every defined function that is not in keep to be inlined, run canonicalising passes"""
    txt = run([LINK, '-S'] + list(lls)).decode()
    keep = set(keep) | set(extra_keep)
    out = []
    for ln in txt.split('\n'):
        if ln.startswith('define'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            name = m.group(1).strip('"')
            base = re.sub(r'\.\d+$', '', name)
            attr = 'noinline' if base in keep else 'alwaysinline'
            # insert the attribute before the attribute group
            ln = re.sub(r'(\) (?:local_unnamed_addr |unnamed_addr )?)(#\d+)', r'\1%s \2' % attr, ln, count=1)
        out.append(ln)
    # attribute groups may carry noinline: clang -O1 does not add it
    return run([OPT, '-S', '-passes=' + passes, '-'], input='\n'.join(out).encode()).decode()


_lib = {}


def library(mpi=True, **kw):
    if mpi in _lib:
        return _lib[mpi]
    srcs = ['bigfile.c', 'bigfile-record.c'] + (['bigfile-mpi.c', 'mp-mpiu.c'] if mpi else [])
    lls = []
    for s in srcs:
        p = os.path.join(REPO, 'src', s)
        if not os.path.exists(p):
            raise AnalysisError('missing source ' + p)
        lls.append(compile_tu(p))
    _lib[mpi] = lls
    return lls
