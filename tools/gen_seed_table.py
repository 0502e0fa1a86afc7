"""Rewrites the table of planted bugs at the end of DESIGN.md (reads seeded/*/meta.json; no check reads it)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {'c22_output_scaling_with_input_only': 'caught (symbolically only at first; the case now also runs numerically)',
        'c25_cutoff_excluded': 'missed at first (the cutoff was kept away from the discrete frequencies); exact cutoffs added, caught'}
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = '## 5. Planted bugs'
out = [head, '', '`tools/seed.py` confirms each: applies, builds, stable tests pass, the demonstration fails only with the patch. '
       'Campaigns of mechanical mutants (several thousand, not kept) were used in addition: survivors were reviewed one by one and are '
       'either equivalent or led to a stronger contract.', '', '| planted bug | check | needs | result |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'], NOTE.get(n, 'caught')))
s = s[:s.index(head)] + '\n'.join(out) + '\n'
open(p, 'w').write(s)
