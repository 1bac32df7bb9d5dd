"""Write seeded/<id>/ from a bug description file.

mkbug.py FILE...   each FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
"""
import difflib
import json
import os
import runpy
import sys

OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 when the property holds
exec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"
'''


def main():
    only = set(sys.argv[2:])
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        texts = {}
        for f, old, new in b['edits']:
            t = texts.get(f) or open('/repo/' + f).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d matches of %r in %s' % (b['id'], t.count(old), old[:80], f))
            texts[f] = t.replace(old, new)
        patch = ''
        for f, t in texts.items():
            a = open('/repo/' + f).read()
            patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(
                a.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print(d)


main()
