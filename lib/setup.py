#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain the checks need is there (every check builds for itself)."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, props
subprocess.check_call(["/usr/bin/g++", "--version"], stdout=subprocess.DEVNULL)
subprocess.check_call(["ninja", "--version"], stdout=subprocess.DEVNULL)
vbuild._pyflags()
print("ready: %d checks" % len(props.PROPS))
