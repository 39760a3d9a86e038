"""addprop.py AREA 'dict(...)' Pxx  -- registers an area and a property in props.py"""
import sys
area, d, pr = sys.argv[1:4]
f = 'lib/props.py'
s = open(f).read()
if '"%s": dict' % area not in s:
    s = s.replace('}\nfor _n', '    "%s": %s,\n}\nfor _n' % (area, d))
if '"%s": prop' % pr not in s:
    s = s.rstrip()
    assert s.endswith('}')
    s = s[:-1] + '    "%s": prop("%s"),\n}\n' % (pr, area)
open(f, 'w').write(s)
