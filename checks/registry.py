"""Which modules decide which property, and the rule applied."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import props  # noqa: E402

MODULES = {"c_frame": range(1, 6), "c_dec": range(6, 17), "c_out": range(17, 23), "c_ctl": [23], "c_run": [24, 25, 26, 28], "c_dto": [27], "c_misc": range(31, 35)}

CHECKS = {}
for _p in props.P:
    _n = int(_p["id"][1:])
    CHECKS[_p["id"]] = {"modules": [m for m, r in MODULES.items() if _n in r], "rule": _p["rule"], "level": "other",
                        "assumptions": [_p["note"], props.TB]}
