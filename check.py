#!/usr/bin/env python3
"""Decides one property of /repo with the specification in spec/.

    python3 check.py C01               run the check (VERIF_SEED, VERIF_TIER)
    python3 check.py C01 --replay F    re-run one recorded violation
    python3 check.py --setup           build everything once (setup_cmd)

Exit 0: every behaviour observed is one the specification allows.
Exit 1: VIOLATION lines name behaviours of the real code it does not allow.
Exit 2: the check itself could not give an answer.
"""
import sys
from vlib import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
