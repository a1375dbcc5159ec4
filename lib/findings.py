"""known-findings.txt: one finding per line.

  known: property=<id> <what fails>
  fixed: property=<id> <commit> <what failed>

'fixed' entries suppress nothing.
"""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'known-findings.txt')


def known(prop):
    out = []
    if os.path.exists(PATH):
        for line in open(PATH):
            m = re.match(r'known: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
