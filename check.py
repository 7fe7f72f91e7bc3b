#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the working tree. exit 0: holds, 1: violated, 2: the check could not run"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import importlib
import core

FAMILIES = ["props_seq", "props_par", "props_pool", "props_conv", "props_gen", "props_file", "props_fault", "props_arr", "props_util"]


def main():
    prop = sys.argv[1]
    for f in FAMILIES:
        if not os.path.exists(os.path.join(core.VERIF, "lib", f + ".py")): continue
        m = importlib.import_module(f)
        if prop in m.PROPS:
            try:
                return m.PROPS[prop]()
            except core.Error as e:
                print("ERROR", str(e)[:4000]); return 2
            except Exception:
                traceback.print_exc(); return 2
    print("ERROR unknown property", prop); return 2


sys.exit(main())
