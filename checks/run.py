#!/usr/bin/env python3
"""python3 checks/run.py PROPERTY [--tier quick|thorough]"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness


def frag(prop, tier):
    import fragprops
    return fragprops.analyse(prop, tier)


def names(prop, tier):
    import namecheck
    return namecheck.analyse(prop, tier)


def overrides(prop, tier):
    import overrides
    return overrides.analyse(prop, tier)


def crace(prop, tier):
    import csource
    return csource.analyse(prop, tier)


def ccalls(prop, tier):
    import ctypescheck
    return ctypescheck.analyse(prop, tier)


def tempstate(prop, tier):
    import tempstate
    return tempstate.analyse(prop, tier)


def choices(prop, tier):
    import choices
    return choices.analyse(prop, tier)


def convflag(prop, tier):
    import convflag
    return convflag.analyse(prop, tier)


def spaces(prop, tier):
    import spaces
    return spaces.analyse(prop, tier)


TABLE = {"C10": spaces, "C14": convflag, "C12": choices, "C15": tempstate, "C16": ccalls, "C17": crace, "C18": overrides, "C19": names, "C01": frag, "C02": frag, "C03": frag, "C04": frag, "C05": frag, "C06": frag}

if __name__ == "__main__":
    sys.exit(harness.main(TABLE))
