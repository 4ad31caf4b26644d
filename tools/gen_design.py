# Writes the per-property part of DESIGN.md from properties.jsonl, the RULE lines of the harnesses and tools/design_notes.json.
import json,glob,re,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rule={}; where={}; subs={}
for f in sorted(glob.glob(H+"/props/*.cpp")):
    t=open(f).read()
    for i,r in re.findall(r'RULE\((C\d+),"([^"]*)"\)',t): rule[i]=r; where[i]=os.path.relpath(f,H)
    for i,s in re.findall(r'^(?:PROP|FAULT)\((C\d+),(\w+)',t,re.M): subs.setdefault(i,[]).append(s)
notes=json.load(open(H+"/tools/design_notes.json"))
b=json.load(open(H+"/budget.json"))
out=[]
for l in open(H+"/properties.jsonl"):
    d=json.loads(l); i=d["id"]; q=dict(asan=150000,rel=700000,fuzz=8); q.update(b.get(i,{}))
    out.append(f"### {i}. {d['title']}\n")
    out.append(f"*Harness* `{where[i]}` ({', '.join(subs.get(i,[]))}); quick {q.get('tsan',q['asan'])} cases {'under ThreadSanitizer' if 'tsan' in q else 'sanitized'} + {q['rel']} optimised{' + %d s x 8 libFuzzer'%q['fuzz'] if q['fuzz'] else ''}; thorough 25 times as many{', 150 s' if q['fuzz'] else ''}.")
    out.append(f"*Generated and compared:* {rule[i]}.")
    out.append(f"*Beyond the tests:* {d['why_tests_cant']}")
    if i in notes: out.append(f"*Notes:* {notes[i]}")
    out.append("")
t=open(H+"/DESIGN.md").read()
a,z="<!-- properties -->","<!-- end of properties -->"
t=t[:t.index(a)+len(a)]+"\n\n"+"\n".join(out)+"\n"+t[t.index(z):]
open(H+"/DESIGN.md","w").write(t)
