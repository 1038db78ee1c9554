import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append((m['property'],os.path.basename(d),m['what_it_breaks'],m['needs']))
rows.sort()
out='''
## 8. Planted bugs and edits that change nothing

`seeded/` holds %d planted bugs, written from the statements and the code (`tools/plants.py`; `tools/plant.py`
confirms and runs them). Each is caught by the quick check of its own property; where the harness also
finds a failing input, the VIOLATION line carries it.

| property | bug | what it breaks | needs |
|---|---|---|---|
'''%len(rows)
for p,i,b,n in rows: out+=f"| {p} | `{i}` | {b} | {n} |\n"
out+='''
Besides these, single-token and statement mutants of every anchored file were run against the harnesses
alone (`tools/mutate.py`): what survives is equivalent, or touches text no property speaks about (error
messages, log lines, the deposits of a transaction builder's configuration); the former survivors that
were neither led to stronger contracts, harness cases or statements.

Edits that change nothing: 57 refactorings of the functions under contract (helpers extracted, loops
turned into iterator chains and back, `match` for `if let`, statements reordered, locals added) were run
through the checks. None raises an alarm; about half are still proved, in the others the contract has no
place to go (a new helper, another loop) and the check says *undecided by proof* and leaves the verdict
to the harness with its search time of 60 s.
'''
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find('\n## 8. ')
if i>=0: s=s[:i]+'\n'
open(p,'w').write(s.rstrip('\n')+'\n'+out)
