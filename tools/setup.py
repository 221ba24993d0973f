#!/usr/bin/env python3
"""Nothing to build ahead of time: checks that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
