#!/usr/bin/env python3
"""setup_cmd: nothing to install; compiles the harness crate once so that a broken toolchain shows here."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
os.makedirs(driver.WORK, exist_ok=True)
os.makedirs(driver.OUT, exist_ok=True)
p = subprocess.run(["cargo", "kani", "--version"], stdout=subprocess.PIPE)
print(p.stdout.decode().strip())
sys.exit(p.returncode)
