"""A small process which runs simulations: forking it is much cheaper than forking the worker."""
import gc
import os
import pickle
import struct
import sys

LIB = os.path.dirname(os.path.abspath(__file__))


def main():
    sys.path[:0] = [os.path.realpath(os.environ["DSARI_REPO"]), LIB]
    import core
    import real
    import sim
    import dsari.daemon  # noqa: F401
    import sqlite3  # noqa: F401
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    r, w = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")
    os.set_inheritable(rfd, False)
    os.set_inheritable(wfd, False)
    gc.collect()
    gc.freeze()
    while True:
        h = r.read(4)
        if len(h) < 4:
            os._exit(0)
        what, plan, d = pickle.loads(r.read(struct.unpack("<I", h)[0]))
        if isinstance(plan, dict) and plan.get("readers"):
            # once, so that the readers need not
            import readers
            readers.load()
        try:
            res = core.isolate({"sim": sim._daemon, "real": real.daemon}[what], plan, d, cpu=90)
        except BaseException as e:
            res = e
        out = pickle.dumps(res)
        w.write(struct.pack("<I", len(out)) + out)
        w.flush()


main()
