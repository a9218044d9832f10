#!/usr/bin/env python3
"""Build everything the checks need: the Java override of the number module and the harness."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build()
print("built")
