import json,subprocess
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
out=subprocess.run(['/verif/mc/target/release/vmc','list'],capture_output=True,text=True).stdout
have={l.split()[0]:l.split()[1:] for l in out.splitlines()}
notes=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for i in ids:
    if i in have:
        t,n=notes.get(i,("exhaustive choice-sequence exploration of the real code with a lockstep RFC 9497 model","Holds on every execution within the stated bounds; trusts the curve crates' arithmetic and the harness's reference model."))
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=t,level="model_checking",level_note=n))
na=[dict(property="N01",reason="Timing is not an observable of the explored executions: enumeration of behaviours cannot decide whether machine code runs in constant time (a different family: timing/binary analysis)."),
 dict(property="N02",reason="A computational hardness statement quantifies over all efficient adversaries in the random oracle model; no bounded state space decides it. C05/C06/C12/C13/C14 check the structural facts it rests on.")]
for i in ids:
    if i[0]=='C' and i not in have: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo are needed: the public Group/CipherSuite traits let the harness own every group element, hash answer and random draw. Replay a violation with ./check.sh --replay <file>.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
