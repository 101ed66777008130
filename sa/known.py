"""Known findings: committed by hand, read-only at run time."""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def load(pid):
    """{finding key: description} of the unrepaired findings of one property."""
    out = {}
    if not os.path.exists(PATH):
        return out
    with open(PATH, encoding='utf-8') as f:
        for ln in f:
            m = re.match(r'finding: property=(\S+) key=(.+?) :: (.*)$', ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
