"""Scenarios in which consecutive inputs differ only slightly, so that state kept between calls shows."""
from vlib.core import hx


def ishex(a):
    return len(a) >= 8 and len(a) % 2 == 0 and all(ch in "0123456789abcdef" for ch in a) and (len(a) > 24 or not a.isdigit())


def nudge(r, a, where=None):
    """one byte of a hex argument changed"""
    v = bytearray.fromhex(a)
    i = {0: len(v) - 1, 1: 0, 2: len(v) // 2}.get(where, r.randrange(len(v))) if where is not None else r.randrange(len(v))
    v[i] ^= r.choice([1, 0x80, 0xff, 1 << r.randrange(8)])
    return hx(v)


def sibling(r, cmds, skip=()):
    """cmds with one argument nudged"""
    cand = [(i, j) for i, c in enumerate(cmds) if not c.startswith(tuple(skip)) for j, a in enumerate(c.split()) if j and ishex(a)]
    if not cand:
        return list(cmds)
    i, j = r.choice(cand)
    out = list(cmds)
    w = out[i].split()
    w[j] = nudge(r, w[j], r.choice([0, 0, 1, 2, None]))
    out[i] = " ".join(w)
    return out


def siblings(r, scn, count, reps=3, size=3000, skip=()):
    """some of the scenarios, each followed by near copies of itself and by itself again"""
    skip = tuple(skip) or ("\0",)
    ok = [s for s in scn if not any("Long" in x or "Skip" in x for x in s) and sum(map(len, s)) <= size and any(ishex(a) for c in s if not c.startswith(skip) for a in c.split()[1:])]
    out = []
    for s in (r.sample(ok, count) if len(ok) > count else ok):
        cmds = list(s)
        for _ in range(reps):
            cmds += sibling(r, s, skip)
            if r.random() < .6:
                cmds += s
        out.append(cmds)
    return out


def walk(r, make, arg, step=1):
    """commands for an argument and its near copies: every byte position changed in turn, the original again before each"""
    cmds = []
    for i in range(0, len(arg), step):
        v = bytearray(arg)
        v[i] ^= r.choice([1, 0x80, 0xff])
        cmds += make(bytes(arg)) + make(bytes(v))
    return cmds
