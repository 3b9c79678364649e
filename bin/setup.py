#!/usr/bin/env python3
"""Tries the tools: builds the harness against /repo and parses the specification."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

ctx = vlib.Ctx('setup', 'quick', 1)
try:
    ctx.harness()
    mods = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith('.tla'))
    for f in mods:
        p = subprocess.run(['tla-sany', f], cwd=vlib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or b'rror' in p.stdout and b'*** Errors' in p.stdout:
            print(p.stdout.decode('utf8', 'replace')[-3000:])
            sys.exit('cannot parse ' + f)
    print('harness is built, %d modules are parsed' % len(mods))
finally:
    ctx.cleanup()
