"""Driver process: runs one component's driver on the code in /repo."""
import importlib
import json
import os
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def plain(value):
    return value.item()     # numpy scalars


ALIVE = [0.0]


def watch(limit=400):
    """Ends a driver that one call of the code keeps from getting on."""
    main_thread = threading.main_thread().ident
    while time.monotonic() - ALIVE[0] < limit:
        time.sleep(5)
    stack = traceback.extract_stack(sys._current_frames()[main_thread])
    print("".join(traceback.format_list(stack)), flush=True)
    os._exit(3 if any(os.path.abspath(f.filename).startswith(REPO + "/")
                      for f in stack) else 4)


def main():
    comp_name, prop, seed, tier, edges_path, out_path = sys.argv[1:7]
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    comp = importlib.import_module("comp_" + comp_name)
    with open(edges_path) as f:
        edges = json.load(f)
    import numpy as np
    np.seterr(all="ignore")
    ALIVE[0] = time.monotonic()
    threading.Thread(target=watch, daemon=True).start()
    try:
        with open(out_path, "w") as out:
            for session in comp.drive(prop, int(seed), tier, edges):
                ALIVE[0] = time.monotonic()
                out.write(json.dumps(session, default=plain) + "\n")
    except BaseException as error:
        traceback.print_exc()
        frames = traceback.extract_tb(error.__traceback__)
        if frames and any(os.path.abspath(f.filename).startswith(REPO + "/")
                          for f in frames):
            sys.exit(3)
        if not isinstance(error, (ImportError, MemoryError, OSError,
                                  KeyboardInterrupt, SystemExit)):
            sys.exit(3)     # what the code returned could not be observed
        sys.exit(4)


if __name__ == "__main__":
    main()
