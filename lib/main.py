"""Entry point of every check: run.sh <ID> [--replay FILE]."""
import os
import pathlib
import shutil
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
SCRATCH = tempfile.mkdtemp(prefix='run-', dir=os.environ.get('VERIF_SCRATCH_DIR'))
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(SCRATCH, 'hyp')
os.environ['VERIF_SCRATCH'] = SCRATCH
os.mkdir(os.environ['MPLCONFIGDIR'])
sys.dont_write_bytecode = True
sys.path[0:0] = [str(ROOT), str(REPO)]
# hypothesis is only in the tool environment; searched after everything else
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    # third-party modules first, with their bytecode caches ...
    import hypothesis, numba, numpy, pandas, networkx, peakutils  # noqa
    import matplotlib.pyplot, matplotlib_scalebar.scalebar  # noqa
    import scipy.stats, scipy.ndimage, scipy.spatial, scipy.interpolate  # noqa
    import skimage.transform, skimage.measure, skimage.morphology, skimage.draw  # noqa
    # ... then the code under test without: never read stale bytecode
    # lying beside the sources, always run the current tree
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    import defdap
    import defdap.ebsd, defdap.hrdic, defdap.inspector  # noqa
    sys.pycache_prefix = None
    from lib import framework
    got = pathlib.Path(defdap.__file__).resolve()
    if REPO.resolve() not in got.parents:
        print(f'error: defdap imported from {got}', file=sys.stderr)
        return 3
    return framework.run(sys.argv[1:])


if __name__ == '__main__':
    code = 3
    try:
        code = main()
    except SystemExit as e:
        code = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        shutil.rmtree(SCRATCH, ignore_errors=True)
    if os.environ.get('VERIF_SCRATCH_DIR'):
        open(os.path.join(os.environ['VERIF_SCRATCH_DIR'], 'done'), 'w').close()
    os._exit(code if isinstance(code, int) else 3)
