"""Registry of property checks."""
import importlib

CHECKS = {}


class Check:
    def __init__(self, pid, fn, technique, explanation, assumptions, configs):
        self.pid = pid
        self.fn = fn
        self.technique = technique
        self.explanation = explanation
        self.assumptions = assumptions
        self.configs = configs


BASE = ["clang 18's translation of the C sources to LLVM IR is faithful",
        "library functions behave as their contracts in sa/models.py say",
        "no signal handler or other thread modifies program memory between two "
        "instructions unless the check says otherwise"]


def check(pid, technique, explanation, assumptions=(), configs=("native", "portable")):
    def deco(fn):
        CHECKS[pid] = Check(pid, fn, technique, " ".join(explanation.split()),
                            BASE + list(assumptions), list(configs))
        return fn
    return deco


for m in ("core", "errors", "limits", "memory", "kdf", "passphrase", "cli", "secrets", "rng",
          "blocks", "accel", "numbers", "system", "getopt",
          "whole"):
    importlib.import_module("props." + m)
