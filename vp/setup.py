#!/usr/bin/env python3
"""Checks that what the checks need is there, and builds the parts that are used by most of them."""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

if __name__ == "__main__":
    build.objects(["shared", "hdf5", "cxx"])
    print("ready")
