import re,json,glob,os
p="/verif/DESIGN.md"
s=open(p).read()
props=re.search(r"<!-- props -->.*<!-- /props -->",s,re.S).group(0)
front=open("/verif/tools/design/front.md").read(); back=open("/verif/tools/design/back.md").read()
rows=[]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m.get('what_it_breaks','')} |")
table="| planted bug | caught by | what it breaks |\n|---|---|---|\n"+"\n".join(rows)
fx={}
for l in open("/verif/KNOWN_FINDINGS.jsonl"):
    d=json.loads(l)
    if d["kind"]=="fixed": fx.setdefault(d["property"],[]).append(f"{d['commit']} {d['what'].split(d['commit'],1)[1].strip()}")
fixes="\n".join(f"- **{k}**: "+"; ".join(v)+"." for k,v in sorted(fx.items()))
open(p,"w").write(front+"\n"+props+"\n\n"+back.replace("@TABLE@",table).replace("@FIXES@",fixes))
