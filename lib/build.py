"""Builds LLVM bitcode from /repo's current working tree and loads it as JSON.

Nothing of /repo is executed: the sources are only compiled to LLVM IR, linked
per program and dumped by tool/irx.  Results are cached under /verif/.cache keyed
by the contents of every source file, the tool and the flags.
"""
import hashlib, json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('BWTC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('BWTC_CACHE') or os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'
CLANG, CLANGXX = '/usr/bin/clang-18', '/usr/bin/clang++-18'
SKIP_DIRS = {'test', '_build', '.git', 'doc', 'docs', 'build', 'bin'}


class AnalysisError(Exception):
    """The analysis could not be carried out: neither pass nor violation."""


def sources():
    out, headers = [], []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith('.'))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(('.cpp', '.c', '.cc', '.cxx')):
                out.append(p)
            elif os.path.isfile(p) and not f.endswith(('.o', '.a', '.so', '.md', '.txt')):      # whatever may be included
                headers.append(p)
    return out, headers


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def tool():
    """Build (or reuse) the irx dumper."""
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    key = _hash([src])
    exe = os.path.join(CACHE, 'irx-' + key)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        run(['/usr/bin/g++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-w', '-D_GNU_SOURCE',
             '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
             '-I' + LLVM + '/include', src, '-o', tmp, '-L' + LLVM + '/lib',
             '-Wl,-rpath,' + LLVM + '/lib', '-lLLVM-18'])
        os.replace(tmp, exe)
    return exe


def flags(path, defs=()):
    common = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-fno-discard-value-names',
              '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-emit-llvm', '-c',
              '-I' + REPO] + ['-D' + d for d in defs]
    if path.endswith('.c'):
        return [CLANG, '-std=gnu11', '-I' + os.path.dirname(path)] + common
    return [CLANGXX, '-std=gnu++17', '-Wno-reserved-user-defined-literal'] + common


def bitcode(defs=()):
    """-> directory for products of this tree, dict source path -> bitcode path (compiled with `defs`)."""
    srcs, hdrs = sources()
    if not srcs:
        raise AnalysisError('no sources under ' + REPO)
    hh = _hash(hdrs, ' '.join(flags('x.cpp', defs)) + ' '.join(flags('x.c', defs)))
    objs = os.path.join(CACHE, 'obj')
    os.makedirs(objs, exist_ok=True)
    res = {s: os.path.join(objs, _hash([s], hh) + '.bc') for s in srcs}

    def one(s):
        if not os.path.exists(res[s]):
            tmp = res[s] + '.%d' % os.getpid()
            run(flags(s, defs) + [s, '-o', tmp])
            os.replace(tmp, res[s])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, srcs))
    d = os.path.join(CACHE, 'tree-' + hashlib.sha256(' '.join(sorted(res.values())).encode()).hexdigest()[:24])
    os.makedirs(d, exist_ok=True)
    return d, res


PROGRAMS = ('compress', 'uncompress', 'preprocess', 'postprocess')
BASE_PIPE = ['--pass=globaldce,function(sroa,early-cse,simplifycfg)']


def linked(prog, defs=()):
    """Link the whole tree with the main of `prog` -> bitcode path."""
    d, res = bitcode(defs)
    out = os.path.join(d, prog + '.linked.bc')
    if not os.path.exists(out):
        mains = {p: os.path.join(REPO, p + '.cpp') for p in PROGRAMS}
        if mains[prog] not in res:
            raise AnalysisError('missing program source %s' % mains[prog])
        use = [b for s, b in res.items() if s not in mains.values()] + [res[mains[prog]]]
        tmp = out + '.%d' % os.getpid()
        run([LLVM + '/bin/llvm-link'] + use + ['-o', tmp])
        os.replace(tmp, out)
    return out


def dump(prog, defs=(), opts=(), keep='main'):
    """-> parsed JSON of the linked program after the given irx options."""
    exe = tool()
    bc = linked(prog, defs)
    args = ['--keep=' + keep] + list(opts or BASE_PIPE)
    key = hashlib.sha256((' '.join(args) + os.path.basename(exe)).encode()).hexdigest()[:16]
    out = os.path.join(os.path.dirname(bc), '%s-%s.json' % (prog, key))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run([exe, bc, tmp] + args)
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f)
