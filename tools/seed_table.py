"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '../seeded/*/meta.json'))):
    m = json.load(open(p))
    print('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
