#!/usr/bin/env python3
"""check.py <property id>   decide one property on /repo's current working tree
   check.py --replay FILE  run one recorded history again"""
import importlib, json, os, sys, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

MODULES = {}
def reg(mod, ids):
    for i in ids.split():
        MODULES[i] = mod
reg("p_mem", "C01 C02 C03 C04 C05 C06 C07 C08 C09")
reg("p_image", "C10 C11 C12 C13 C14")
reg("p_log", "C15 C16")
reg("p_cmdline", "C17 C18 C19")
reg("p_platform", "C20 C21 C22 C23 C24")
reg("p_session", "C25 C26")
reg("p_support", "C27 C28 C29 C30 C31 C32")

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        mod = importlib.import_module(MODULES[rep["property"]])
        c = vlib.Check(rep["property"])
        c.before = rep.get("before", [])
        mod.replay(c, rep)
        return c.finish()
    prop = sys.argv[1]
    mod = importlib.import_module(MODULES[prop])
    c = vlib.Check(prop)
    try:
        getattr(mod, prop)(c)
        return c.finish()
    except vlib.CheckError as e:
        shutil.rmtree(c.tmp, ignore_errors=True)
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 2

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
