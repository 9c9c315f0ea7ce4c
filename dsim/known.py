"""Reader for /verif/known-findings.txt (never written at run time).

  finding: property=<id> key=<key> <what fails>
  fixed: property=<id> <commit> <what failed>
"""
import os
import re

from dsim import env


def load(prop):
    out = {}
    path = os.path.join(env.VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)',
                             line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    return out
