#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, vlib

if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(vlib.main(sys.argv[1], tier, props.CHECKS))
