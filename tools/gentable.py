#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ''.join('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks']) for f, m in sorted((f, json.load(open(f))) for f in glob.glob(V + '/seeded/*/meta.json')))
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'(\|---\|---\|---\|\n)(\| b[^\n]*\n)+', lambda m: m.group(1) + rows, s)
open(p, 'w').write(s)
