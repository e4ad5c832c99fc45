"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
by = {}
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    by.setdefault(m['property'], []).append(f"`{os.path.basename(d)}` ({m['needs']})")
for p in sorted(by): print(f'* {p}: ' + '; '.join(by[p]))
