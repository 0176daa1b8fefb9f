#!/usr/bin/env python3
# usage: check.py <property id> [harness name substring]
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpcheck, registry
if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":    # the engine; a check builds it if it is not there
        print(vpcheck.engine())
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = registry.CHECKS[pid]
    if len(sys.argv) > 2:
        hs = [h for h in hs if sys.argv[2] in h.name]
    sys.exit(vpcheck.main(pid, hs, registry.known_findings(), tier, seed, registry.ASSUMPTIONS.get(pid, []) + registry.COMMON))
