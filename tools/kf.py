import json,subprocess
log=dict(l.split(' ',1)[::-1] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','0ad386b..HEAD'],text=True).splitlines())
props={
"4a0dc7b":"C19","99f9dde":"C19","ec9a3bf":"C19",
"10f8a66":"C21 C23","4c0e286":"C17","ed6dab8":"C20",
"fd25ce0":"C04 C11","1f8892e":"C17","915721a":"C17",
"c2e939c":"C07 C23","b1ce9f3":"C10 C14","c20cf4f":"C16 C07","c763214":"C12 C01","efcc56a":"C16","e0b7298":"C10 C14","ce292b1":"C01","08d69fd":"C19","1b4cfd0":"C23","673eb60":"C07","90fe00c":"C08","5dc7b59":"C20 C08","6d2c36f":"C20 C21","b3fda46":"C06","66d796a":"C08 C03","3b2389a":"C01 C02 C07 C20","ee5dde8":"C05","f659367":"C21 C22 C19","ea0c851":"C06","b03aae7":"C01 C05 C06","525cd87":"C11 C15 C16","27496ba":"C10 C11 C14","39a100c":"C10","75c26d8":"C13","a0eec79":"C12","358f957":"C12","59a93f5":"C16","b08ac92":"C04 C11"}
out=[]
for subj,h in reversed(list(log.items())):
    if not subj.startswith('fix: '): continue
    h=h.strip()
    for p in props[h].split():
        out.append({"id":f"{p}-{h}","property":p,"state":"fixed","commit":h,"what":subj[5:],"line":f"fixed: property={p} {h} {subj[5:]}"})
json.dump({"findings":out},open('/verif/known_findings.json','w'),indent=1)
open('/verif/known_findings.json','a').write("\n")
print(len(out))
