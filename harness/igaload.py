"""Import igakit from /repo's working tree, with the extension built from it."""
import glob
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = "/opt/igakit-build"


def load():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    warnings.simplefilter("ignore")
    # the editable install's finder would rebuild on import: go around it
    sys.meta_path[:] = [f for f in sys.meta_path
                        if "editable" not in type(f).__module__.lower()
                        and "editable" not in type(f).__name__.lower()]
    sys.path.insert(0, REPO)
    so = glob.glob(os.path.join(BUILD, "igalib*.so"))
    if len(so) != 1:
        raise SystemExit("no built igalib in %s" % BUILD)
    import igakit
    assert os.path.realpath(igakit.__file__) == os.path.realpath(
        os.path.join(REPO, "igakit", "__init__.py")), igakit.__file__
    loader = importlib.machinery.ExtensionFileLoader("igakit.igalib", so[0])
    spec = importlib.util.spec_from_file_location("igakit.igalib", so[0], loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules["igakit.igalib"] = mod
    igakit.igalib = mod
    import numpy
    numpy.seterr(all="ignore")
    import igakit.nurbs, igakit.transform, igakit.cad, igakit.io, igakit.plot
    return igakit
