"""Write the table of planted bugs into DESIGN.md"""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|---|---|---|']
for meta in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(meta))
    rows.append('| %s | %s | %s |' % (
        os.path.basename(os.path.dirname(meta)), m['property'], m['needs']))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'(<!-- matrix -->\n).*?(<!-- /matrix -->)',
              lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2),
              text, flags=re.S)
open(path, 'w').write(text)
