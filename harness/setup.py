"""Checks that the tools are in place (there is nothing to build)."""

import subprocess
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import vlib  # noqa: E402

ok = all(Path(vlib.TLA, j).exists() for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
r = subprocess.run(
    [vlib.PY, "-c", "import psygnal; print(psygnal.__file__)"],
    env={"PYTHONPATH": f"{vlib.REPO}/src", "PATH": "/usr/bin:/bin"},
    capture_output=True,
    text=True,
)
print("TLC:", ok, "psygnal:", r.stdout.strip(), r.stderr[-300:])
sys.exit(0 if ok and r.returncode == 0 else 1)
