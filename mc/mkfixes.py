import json,subprocess,re
m={'f3876ac':'C27','37167e8':'C22','79c2b19':'C22','ddcd996':'C23','f6b312a':'C23','27f3ee6':'C23','2e690f4':'C24','8843b0f':'C25','4ad7a8c':'C28','23d0dff':'C25','bc5fa0b':'C21','e541860':'C21','299fb24':'C25','e89cd8a':'C26','e297b6b':'C26','b2cbe4d':'C26','0f67626':'C18','2473089':'C18','a7cebda':'C14','ff3b1b0':'C19','fa94653':'C19','709d3ed':'C19','3910d81':'C16','f6463a1':'C15','d6e14aa':'C29','65652e4':'C31','ebd58a7':'C30','91ad9b5':'C30'}
try: m.update(json.load(open('/verif/mc/fixes.json')))
except FileNotFoundError: pass
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    out.append('fixed: property=%s %s %s'%(m[h],h,s[5:]))
k=json.load(open('/verif/known_findings.json'))
k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
