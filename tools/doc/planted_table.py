import sys
sys.path.insert(0,'/verif/tools/plant')
import bugs
t=open('/verif/DESIGN.md').read()
i=t.index('## Planted bugs')
out='''## Planted bugs

In `seeded/` (sources in `tools/plant/bugs.py`), each confirmed to build, to pass the stable tests,
and to be shown by its `demo.sh` (`tools/plant/plant.py validate`). Each is caught by the quick tier
of the check of its own property (`tools/plant/plant.py detect`).

Some were missed at first, and strengthened the checks: `empty-index` (C19 now also puts the empty
index amid others), `remembered-bias` (C21 now reuses memory: tables of other lengths at the same
address), `first-offset-in-part` (C10 now goes through first offsets). `or-short-circuit` breaks C02 and
is not visible to C05, which does not compute. Rounds of further small changes (probes, about 200 so far)
written from the properties alone led to the axes of depth, distance, position and numbers above, and to the
histories that end in errors.

| planted bug | property | needs |
|---|---|---|
'''
for b in sorted(bugs.BUGS,key=lambda b:(b['property'],b['id'])):
    out+=f"| {b['id']} | {b['property']} | {b['needs']} |\n"
out+='\n'+t[t.index('## Mutation testing'):]
open('/verif/DESIGN.md','w').write(t[:i]+out)
