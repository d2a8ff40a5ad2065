"""Nothing needs building ahead: every check compiles its drivers from /repo's
current sources. This only verifies that the tools are there."""
import os
import shutil
import sys

from . import core

ok = all(shutil.which(t) for t in ("java", "g++", "python3"))
ok = ok and all(os.path.exists(j) for j in core.JARS.split(":"))
print("tools present" if ok else "tools missing")
sys.exit(0 if ok else 1)
