#!/usr/bin/env python3
"""Builds the tool once, so that the checks start from a warm build directory. They rebuild what changed themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from tv.common import build_typical
build_typical()
