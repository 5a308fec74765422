#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys, os
need = ["java", "javac", "cargo"]
missing = [n for n in need if not shutil.which(n)] + [f for f in ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"] if not os.path.exists(f)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("tools present")
