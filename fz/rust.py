"""Compiles the crate's current sources (/repo/src) with rustc into a probe program: the modules themselves, with text appended to
some of them so that private items can be driven, plus a main that answers questions read from standard input.  pyo3's attributes
are the identity here (rust/pyo3_stub) and rayon's parallel iterator is the sequential one; everything else is the real code."""
from __future__ import annotations
import atexit, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
STUB = os.path.join(HERE, '..', 'rust', 'pyo3_stub', 'src', 'lib.rs')
RAYON = '''pub mod prelude {
    pub trait ParIter<'a> { type It; fn par_iter(&'a self) -> Self::It; }
    impl<'a, T: 'a> ParIter<'a> for Vec<T> { type It = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::It { self.iter() } }
    impl<'a, T: 'a> ParIter<'a> for [T] { type It = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::It { self.iter() } }
    pub trait IntoParIter { type It; fn into_par_iter(self) -> Self::It; }
    impl<T: IntoIterator> IntoParIter for T { type It = T::IntoIter; fn into_par_iter(self) -> Self::It { self.into_iter() } }
}
'''


class BuildError(Exception):
    pass


def rustc(args, cwd):
    p = subprocess.run(['rustc', *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(p.stdout[-3000:])


class Exe(str):
    """path of the compiled probe"""
    fallback = False


def build(main, probes=None, modules=None, repo=None, fallback=None):
    """path of the compiled probe; with the probes of fallback where the others do not compile"""
    try:
        return Exe(_build(main, probes, modules, repo))
    except BuildError:
        if fallback is None:
            raise
        e = Exe(_build(main, fallback, modules, repo))
        e.fallback = True
        return e


def _build(main, probes=None, modules=None, repo=None):
    d = tempfile.mkdtemp(prefix='vfz_rust_')
    atexit.register(shutil.rmtree, d, True)
    src = os.path.join(repo or REPO, 'src')
    rustc(['--edition', '2021', '--crate-type', 'proc-macro', '--crate-name', 'pyo3', STUB, '--extern', 'proc_macro', '--out-dir', d], d)
    with open(os.path.join(d, 'rayon.rs'), 'w') as f:
        f.write(RAYON)
    rustc(['--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'rayon', 'rayon.rs', '-O'], d)
    mods = modules or sorted(f[:-3] for f in os.listdir(src) if f.endswith('.rs') and f != 'lib.rs')
    for m in mods:
        with open(os.path.join(src, m + '.rs'), encoding='utf-8') as f:
            text = f.read()
        with open(os.path.join(d, m + '.rs'), 'w', encoding='utf-8') as f:
            f.write(text + '\n' + (probes or {}).get(m, ''))
    if callable(main):
        main = main(src)
    with open(os.path.join(d, 'main.rs'), 'w') as f:
        f.write('#![allow(dead_code, unused, non_camel_case_types)]\n' + ''.join(f'mod {m};\n' for m in mods) + main)
    rustc(['--edition', '2024', '-O', '-C', 'overflow-checks=on', '--cap-lints', 'allow', '--extern', 'pyo3=' + os.path.join(d, 'libpyo3.so'), '--extern',
           'rayon=' + os.path.join(d, 'librayon.rlib'), 'main.rs', '-o', 'probe'], d)
    return os.path.join(d, 'probe')


class Probe:
    """a running probe: one line in, one line out"""
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def ask(self, *words):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write('\t'.join(str(w) for w in words) + '\n')
        self.p.stdin.flush()
        return self.p.stdout.readline().rstrip('\n')
