#!/usr/bin/env python3
"""setup_cmd: everything is interpreted (Jython, TLC), so only check that the tools are where the checks expect them."""
import os, sys
for p in ("/opt/jy/jy", "/opt/bgsite", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
print("ok")
