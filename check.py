#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
import framework  # noqa: E402

TRUST = ["rustc nightly front end (name/type resolution, MIR construction)", "/verif/driver (MIR dump)", "/verif/lib (dataflow engine and its models of std/actix/ndarray adaptors)", "actix delivers every local message once and runs one handler of an actor at a time"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    reg = importlib.import_module("registry").REG
    fn, technique = reg[pid]
    return framework.main(pid, fn, "other", technique, tier, TRUST)


if __name__ == "__main__":
    sys.exit(main())
