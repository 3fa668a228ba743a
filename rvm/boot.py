"""
Make `import sfepy` use the Python sources of the repository's working tree
and the extension modules of an out-of-tree build.
"""
import os, sys, tempfile, shutil, atexit, warnings
import importlib.machinery, importlib.util

from . import build as _build

class ExtFinder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)

scratch = None

def boot(kind='plain'):
    """Set up the process; returns the scratch directory (cwd)."""
    global scratch
    if scratch is not None:
        return scratch
    where = _build.ensure(kind)
    given = os.environ.get('RVM_SCRATCH')
    if given:
        scratch = tempfile.mkdtemp(prefix='p-', dir=given)
    else:
        scratch = tempfile.mkdtemp(prefix='rvm-')
        pid = os.getpid()
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(scratch, ignore_errors=True)
        atexit.register(clean)
    home = os.path.join(scratch, 'home')
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    os.environ['RVM_SCRATCH'] = scratch
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
              'NUMEXPR_NUM_THREADS'):
        os.environ[k] = '1'
    # No MPI daemons are started by the serial processes using MUMPS.
    os.environ['OMPI_MCA_ess_singleton_isolated'] = '1'
    os.environ['OMPI_MCA_btl'] = 'self'
    os.environ['OMPI_MCA_orte_tmpdir_base'] = scratch
    os.environ['HWLOC_COMPONENTS'] = '-gl'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    os.environ['JAX_PLATFORMS'] = 'cpu'
    sys.dont_write_bytecode = True
    os.chdir(scratch)
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, ExtFinder(_build.modules(where)))
    sys.path.insert(0, _build.REPO)
    import sfepy
    assert os.path.realpath(sfepy.__file__).startswith(
        os.path.realpath(_build.REPO) + os.sep), sfepy.__file__
    import sfepy.discrete, sfepy.discrete.fem, sfepy.terms, sfepy.solvers
    from sfepy.base.base import output
    output.set_output(quiet=True)
    return scratch
