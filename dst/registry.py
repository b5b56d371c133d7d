"""All property machines by id."""
import importlib

MODULES = {"C%02d" % i: "dst.sessions" for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12)}
MODULES.update({"C10": "dst.compiled"})
MODULES.update({"C%02d" % i: "dst.puzzles" for i in (13, 14, 15, 16, 17, 18)})
MODULES.update({"C21": "dst.lazy"})
MODULES.update({"C19": "dst.cli", "C20": "dst.cli"})
IDS = sorted(MODULES)


def get(pid):
    return getattr(importlib.import_module(MODULES[pid]), pid)()
