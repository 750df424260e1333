#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, os.path.join(H, "props"))
import check

check.main(lambda p: importlib.import_module(p.lower()))
