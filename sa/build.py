"""Builds LLVM IR from /repo's current working tree (fresh on every run)."""
import os
import shutil
import subprocess
import tempfile
import atexit
from . import ir

REPO = os.environ.get('NANOLOG_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='nanolog-sa-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


FLAVOUR = {
    'cpp17': ['-std=c++17'],
    'pre': ['-std=c++17', '-DPREPROCESSOR_NANOLOG'],
    'pre11': ['-std=c++11', '-DPREPROCESSOR_NANOLOG'],
}


def clang_cmd(src, out, flavour, asserts, extra, syntax_only=False):
    cmd = ['clang++-18'] + FLAVOUR[flavour]
    if not asserts:
        cmd.append('-DNDEBUG')
    cmd += ['-include', 'array', '-w', '-fno-color-diagnostics', '-ferror-limit=0',
            '-I', REPO + '/runtime'] + list(extra)
    if syntax_only:
        return cmd + ['-fsyntax-only', src]
    return cmd + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-S', '-emit-llvm',
                  '-fno-discard-value-names', src, '-o', out]


def compile_ir(src, flavour='cpp17', asserts=False, extra=(), passes='sroa', text=None, name=None):
    """compile one translation unit to normalised IR and load it"""
    d = scratch()
    n = len(os.listdir(d))
    if text is not None:
        src = os.path.join(d, 'w%d_%s' % (n, name or 'witness.cc'))
        with open(src, 'w') as f:
            f.write(text)
    raw = os.path.join(d, 'm%d.ll' % n)
    r = subprocess.run(clang_cmd(src, raw, flavour, asserts, extra), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[:4000]))
    if passes:
        opt = os.path.join(d, 'o%d.ll' % n)
        r = subprocess.run(['opt-18', '-S', '-passes=' + passes, raw, '-o', opt],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt failed: ' + r.stderr[:2000])
        os.unlink(raw)
        raw = opt
    with open(raw, errors='surrogateescape') as f:
        t = f.read()
    os.unlink(raw)
    return ir.Module(t, os.path.basename(src))


def syntax_check(text, flavour='cpp17', extra=(), name='w.cc'):
    """(ok, stderr) of type-checking a witness program"""
    d = scratch()
    src = os.path.join(d, 's%d_%s' % (len(os.listdir(d)), name))
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(clang_cmd(src, None, flavour, True, extra, True), capture_output=True, text=True)
    return r.returncode == 0, r.stderr
