#!/usr/bin/env python3
"""Usage: check.py Cnn - decides one property of /repo (see DESIGN.md)."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "harness"))
import kit  # noqa: E402

COMPONENT = {
    "C01": "validate", "C02": "validate",
    "C03": "ring", "C04": "ringsystem", "C05": "ringsystem", "C06": "drawing",
    "C07": "gridparams", "C08": "diagnostics", "C09": "property",
    "C10": "gradient", "C11": "persist", "C12": "viewer",
    "C13": "geometry", "C14": "geometry", "C15": "geometry",
    "C16": "build", "C17": "crash", "C18": "gridsave",
    "C19": "session", "C20": "session", "C21": "geometry", "C22": "session",
    "C23": "session", "C24": "closest", "C25": "session", "C26": "report",
    "C27": "log", "C28": "display", "C29": "contract", "C30": "maps", "C31": "eclipse",
}

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in COMPONENT:
        sys.exit("usage: check.py " + "|".join(COMPONENT))
    try:
        code = kit.run_check(sys.argv[1], COMPONENT[sys.argv[1]])
    except kit.MachineryError as error:
        print("CHECK-ERROR", error)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
