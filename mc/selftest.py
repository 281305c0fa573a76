"""setup_cmd: nothing is built; check that the tools are there"""
import os
import sys


def run():
    from . import engine, impl, ref, world  # noqa: F401

    s = impl.Slope(1, 45)
    s.set_materials(impl.Material())
    print("python", sys.version.split()[0], "repo", impl.REPO, "cpus", engine.NPROC)
    os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
