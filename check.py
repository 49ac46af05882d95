#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
MODULES = {"P01": "c_phase", "P02": "c_phase", "P03": "c_phase", "P04": "c_phase", "P05": "c_life",
           "P06": "c_trav", "P07": "c_trav", "P08": "c_heap", "P09": "c_heap", "P10": "c_heap",
           "P11": "c_dsl", "P12": "c_set", "P13": "c_nsattr", "P14": "c_attreval", "P15": "c_attr", "P16": "c_gen", "P17": "c_hash", "P18": "c_str", "P19": "c_diag", "P20": "c_access", "P21": "c_cli", "P22": "c_out", "P23": "c_mem", "P24": "c_syn"}


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import core
    import importlib
    try:
        sys.exit(importlib.import_module(MODULES[prop]).main(prop))
    except core.Infra as e:
        print("NO ANSWER: %s" % e, flush=True)
        sys.exit(2)


if __name__ == "__main__":
    main()
