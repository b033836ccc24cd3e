#!/usr/bin/env python3
"""setup_cmd: nothing needs building ahead of the checks except the mechanical trace/generator modules; check the tools exist."""
import os, subprocess, sys
H = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
subprocess.check_call([sys.executable, os.path.join(H, "tools", "mkmodules.py")])
subprocess.check_call(["java", "-version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.check_call(["g++", "--version"], stdout=subprocess.DEVNULL)
