"""setup_cmd: verify that the interpreter and the repository import; nothing is built."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
vf.setup_path()
os.environ.setdefault("MPLBACKEND", "Agg")
import yapcad.geom, yapcad.geom3d, yapcad.dsl, numpy, ezdxf  # noqa
print("ok", yapcad.geom.__file__)
