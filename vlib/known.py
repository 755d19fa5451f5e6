"""Known findings: lines of KNOWN_FINDINGS.txt that start with 'finding: property=<id> '."""
import os
from . import core


def lines(prop):
    p = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append("KNOWN-FINDING: " + l[len("finding: "):].strip())
    return out
