#!/usr/bin/env python3
"""Builds the harness crates against /repo and parses every specification."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core

core.build()
print("harness built")
from checks import typegen
typegen.build([typegen.model_program()])
print("generated types built")
