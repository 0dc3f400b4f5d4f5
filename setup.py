#!/usr/bin/env python3
"""Builds the program under test once, so that the first check does not pay for it."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.common import build_weaver

print(build_weaver())
