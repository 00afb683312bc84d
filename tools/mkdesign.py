# Prints the table of planted bugs for DESIGN.md.
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| change | caught by | what breaks | needs |\n|---|---|---|---|')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    print('| %s | %s quick | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs']))
