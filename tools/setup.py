#!/usr/bin/env python3
"""Checks build what they need from /repo themselves; setup only verifies the tool chain."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/build", exist_ok=True)
os.makedirs(V + "/evidence", exist_ok=True)
r = subprocess.run(["g++", "-std=c++20", "-c", "-O1", "-I" + V + "/mc", V + "/mc/mc.cpp", "-o", V + "/build/mc-setup.o"])
sys.exit(r.returncode)
