"""Refreshes the numbers of cases (quick / thorough) that section 2 of DESIGN.md gives for each property."""
import importlib
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
p = os.path.join(VERIF, 'DESIGN.md')
s = open(p).read()


def new(m):
    c = importlib.import_module('mon.checks.' + m.group(2).lower())
    return '**%s%s** (%d / %d)' % (m.group(2), m.group(3), len(list(c.cases('quick', 1))), len(list(c.cases('thorough', 1))))


t = re.sub(r'(\*\*)(C\d\d)([^*]*)\*\* \(\d+ / \d+\)', new, s)
open(p, 'w').write(t)
print(len(re.findall(r'\*\*C\d\d[^*]*\*\* \(\d+ / \d+\)', t)), 'counts')
