"""One integer decides everything: every choice derives from (VERIF_SEED, property, run index)."""
import hashlib
import random

import numpy as np


def derive(*parts) -> int:
    text = "\x1f".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def rng(*parts) -> random.Random:
    return random.Random(derive(*parts))


def gen(*parts) -> np.random.Generator:
    return np.random.Generator(np.random.PCG64(derive(*parts)))


def geometric(r: random.Random, mean: float) -> int:
    """1, 2, ... with the given mean."""
    n = 1
    p = 1.0 / max(1.0, mean)
    while r.random() > p and n < 100000:
        n += 1
    return n
