"""rewrites section 5 (planted bugs) of DESIGN.md"""
import glob, json, os
p="/verif/DESIGN.md"; s=open(p).read()
if '## 5.' in s: s=s[:s.index('## 5.')]
seen={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seen.setdefault(m['property'],[]).append(os.path.basename(os.path.dirname(d)))
first={"s01-behind-tiny":"depths next to the image plane","s02-pos-f4":"map coordinates","s12-near-parallel":"lines at 12 small angles","s13-near-hit":"scaled scenes","s13-small-triangle":"scaled scenes",
"s16-show-back":"planes above the camera with hide_backpoints off","s17-nansum-horizon":"an undefined point in every place","s17-third-camera":"groups of up to four cameras"}
extra=json.load(open('/verif/tools/missed_first.json')) if os.path.exists('/verif/tools/missed_first.json') else {}
first.update(extra)
nocount=["s03-scale-diag","s12-triangle-flat","s15-lut-key","s18-argmax-last","s18-step-order","s19-yres","s23-clip-after","s26-points-attr"]
t="""## 5. Planted bugs

Each bug was written from the text of the property and the code, confirmed to build, pass the existing tests and to be shown by its demonstration, and
then run against the check of its property. All of them are caught now by that check (quick tier); the second list says which
were missed at first and what was added.

| property | planted bugs, all caught by the check of the property |
|---|---|
"""
for k in sorted(seen): t+="| %s | %s |\n"%(k,", ".join(seen[k]))
t+="\nMissed at first, and what the check enumerates since then:\n\n"
for k in sorted(first):
    if os.path.isdir('/verif/seeded/'+k): t+="* %s: %s\n"%(k,first[k])
n=[x for x in nocount if os.path.isdir('/verif/seeded/'+x)]
t+="\nBugs that touch only lines which a `fix:` commit of this work had changed do not count by the rules, but are kept: %s.\n"%", ".join(n)
open(p,'w').write(s.rstrip()+"\n\n"+t)
