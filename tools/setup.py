#!/usr/bin/env python3
"""Builds what the checks share: the oracle and the harness in its main build.
The checks rebuild whatever is out of date, so that this only saves time."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from concurrent.futures import ThreadPoolExecutor
lib.oracle()
with ThreadPoolExecutor(3) as ex:
    list(ex.map(lib.build, lib.CONFIGS))
