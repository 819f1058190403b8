#!/usr/bin/env python3
"""Builds the native helper of the stand-ins and imports the code under test."""
import os, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "shims"))
os.environ["HOME"] = tempfile.mkdtemp(prefix="verif-home-")
import _vnative, vboot
os.rmdir(os.environ["HOME"])
print("ok", _vnative.lib)
