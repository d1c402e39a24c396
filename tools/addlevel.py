"""addlevel.py ID TECHNIQUE NOTE: add an entry to levels.py."""
import os
import sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.py')
s = open(p).read()
i, a, b = sys.argv[1:4]
assert "'%s':" % i not in s
s = s.replace('}\nNA = {}\n', " %r: (%r,\n         %r),\n}\nNA = {}\n" % (i, a, b))
open(p, 'w').write(s)
