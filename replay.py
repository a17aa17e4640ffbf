#!/usr/bin/env python3
"""replay.py FILE: rebuilds the simulator for the variant the file names and repeats the execution."""
import os, re, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
m = re.search(r"^# variant (\S+)", open(sys.argv[1]).read(), re.M)
exe, _ = B.build(m.group(1) if m else "pc", quiet=True)
sys.exit(subprocess.call([exe, "replay", "--file", sys.argv[1]]))
