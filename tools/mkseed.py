#!/usr/bin/env python3
"""mkseed.py <id>: capture /repo's working-tree diff as /verif/seeded/<id>/patch.diff (development helper)."""
import subprocess, sys, os
d = f"/verif/seeded/{sys.argv[1]}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
