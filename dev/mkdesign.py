import json,glob,os
h=os.path.dirname(os.path.abspath(__file__)); v=os.path.dirname(h)
r=lambda n: open(os.path.join(h,n)).read()
t=r("DESIGN.head.md")+r("DESIGN.props.md")+r("DESIGN.tail.md")
t+="| seed | caught by | needs | breaks |\n|---|---|---|---|\n"
for s in sorted(glob.glob(v+"/seeded/*")):
    m=json.load(open(s+"/meta.json")); c=lambda x:str(x).replace("|","/").replace("\n"," ")
    t+=f"| {os.path.basename(s)} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |\n"
open(v+"/DESIGN.md","w").write(t)
