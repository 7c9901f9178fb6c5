"""Fresh interpreter that restores a checkpoint and carries on: python -m dst.resume FILE  (C12)."""
import json
import os
import sys


def main():
    sys.path.insert(0, os.environ["DST_TREE"])
    from dst import seams
    seams.install()
    from dst.core import Sim
    import pickle

    import dill
    import numpy as np
    job = json.load(open(sys.argv[1]))
    with seams.activate(Sim(job["seed"])) as sim:
        from props import eqn, kit
        from props.common import digest
        sim.quiet = True
        sim.cpu_count = job["cpu"]
        eqn.ensure()
        np.random.seed(job["seed"] % 2 ** 32)
        obj = (dill if job["how"] == "dill" else pickle).loads(open(job["checkpoint"], "rb").read())
        out = [digest(kit.apply(obj, job["cfg"], op)) for op in job["ops"]]
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
