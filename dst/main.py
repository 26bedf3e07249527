import importlib
import json
import os
import shutil
import sys
import tempfile


def load(pid):
    mod = importlib.import_module("dst.checks.%s" % pid.lower())
    return mod.CHECK


def main(argv):
    from dst import core

    cmd = argv[0]
    if cmd == "replay":
        body = json.load(open(argv[1]))
        return core.replay(load(body["property"]), argv[1])
    if cmd == "digests":
        pid, n, workers = argv[1], int(argv[2]), int(argv[3])
        return core.determinism(load(pid), os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), n, workers)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.drive(load(cmd), tier, seed)


def entry():
    """Everything that is written goes into a scratch directory that is removed at the end."""
    d = tempfile.mkdtemp(prefix="dst-")
    own = os.getpid()
    os.environ["DST_SCRATCH"] = d
    os.environ["MPLCONFIGDIR"] = os.path.join(d, "mpl")
    os.environ["OPENMDAO_WORKDIR"] = d
    try:
        return main(sys.argv[1:])
    finally:
        if os.getpid() == own:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(entry())
