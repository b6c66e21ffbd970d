#!/usr/bin/env python3
"""check.py <property> [--only REGEX] [--tier quick|thorough]   decide one property
check.py replay <file>                                   rerun a recorded failing input"""
import os, sys, json, time, re, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from toonvc import main
sys.exit(main.main(sys.argv[1:]))
