"""Entry point of a driver process: replays scenarios in the real code."""
import importlib
import json
import os
import random
import sys
import traceback
import zlib

import numpy as np


class Ctx:
    def __init__(self, prop, tier, seed, mode, part, parts, scen, out):
        self.prop, self.tier, self.seed, self.mode = prop, tier, seed, mode
        self.part, self.parts, self.scen = part, parts, scen
        self.out = open(out, "w")
        self.seg = 0
        self.count = 0
        self.rng = self.rng_for("main")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """Number of cases; float32 runs are a smaller second look."""
        k = quick if not self.thorough else (thorough if thorough is not None else 8 * quick)
        return k if self.mode == 64 else max(1, k // 4)

    def rng_for(self, name):
        h = zlib.crc32(f"{self.prop}/{name}/{self.seed}".encode())
        return np.random.default_rng(h)

    def cases(self, name, items):
        """This part's share of the items, each with its own generator."""
        items = list(range(items)) if isinstance(items, int) else list(items)
        for i, it in enumerate(items):
            if i % self.parts == self.part:
                yield it, np.random.default_rng(zlib.crc32(f"{self.prop}/{name}/{self.seed}/{i}".encode()))

    def sample(self, name, items, k):
        items = list(items)
        if len(items) <= k:
            return items
        r = random.Random(f"{self.prop}/{name}/{self.seed}")
        return [items[i] for i in sorted(r.sample(range(len(items)), k))]

    def new(self):
        self.seg += 1

    def emit(self, k, **fields):
        """One event; a pure call stands for itself (own segment)."""
        self.new()
        self.log(k, **fields)

    def log(self, k, **fields):
        self.count += 1
        e = {"k": k, "m": self.mode, "seg": self.seg}
        e.update(fields)
        self.out.write(json.dumps(e) + "\n")
        self.out.flush()

    def call(self, k, fn, **fields):
        """Emits event k with fields and the fields fn() returns; a raised
        exception is recorded as such."""
        try:
            r = fn()
        except Exception as ex:  # noqa: BLE001 - any exception is an observation
            self.emit(k, exc=type(ex).__name__ + ": " + str(ex)[:160].replace("\n", " "), **fields)
            return None
        self.emit(k, **fields, **r)
        return r


def main():
    prop, tier, seed, mode, part, parts, sf, out = sys.argv[1:9]
    import magpi
    repo = os.environ["VERIF_REPO"]
    assert os.path.realpath(magpi.__file__).startswith(os.path.realpath(repo) + "/"), magpi.__file__
    from .registry import PROPS
    spec = PROPS[prop]
    scen = json.load(open(sf))
    ctx = Ctx(prop, tier, int(seed), int(mode), int(part), int(parts), scen, out)
    mod, fn = spec["driver"].split(":")
    try:
        getattr(importlib.import_module("harness." + mod), fn)(ctx)
    except Exception as ex:  # raised inside the code under test: an observation
        tb = traceback.extract_tb(ex.__traceback__)
        if not any(os.path.realpath(f.filename).startswith(os.path.realpath(repo) + "/") for f in tb):
            raise
        ctx.emit("driver", exc=type(ex).__name__ + ": " + str(ex)[:160].replace("\n", " "),
                 where=[f"{f.filename}:{f.lineno}" for f in tb][-6:])
    ctx.out.close()


main()
