"""setup_cmd: verifies that the tools the checks need are present and that /repo builds."""
import shutil, sys
from .common import build_cc, REPO
missing = [t for t in ("gcc", "clang", "as", "ld", "readelf", "objdump") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
build_cc("plain")
print("setup ok:", REPO)
