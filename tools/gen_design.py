# fills the table of planted bugs in DESIGN.md
import json,glob,os,re
rows=["| change | property and check that catches it | breaks | needs |","| --- | --- | --- | --- |"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append("| %s | %s | %s | %s |"%(os.path.basename(d),m['property'],m['what_it_breaks'],m['needs']))
p='/verif/DESIGN.md'; s=open(p).read(); t="<!-- table -->\n"+"\n".join(rows)+"\n<!-- end -->"
s=s.replace("SEEDED_TABLE",t) if "SEEDED_TABLE" in s else re.sub(r"<!-- table -->.*<!-- end -->",lambda _:t,s,flags=re.S)
open(p,'w').write(s)
