import subprocess,sys
exec(open('/tmp/w/fx.py').read().split('for l in')[0])
props.update({"Generate correct valid ranges":"C02","Do not assert":"C08","Support generation of":"C08","Report error when frame":"C08","Report failure instead":"C08","Report unknown element":"C08","Do not inject":"C13","Report missing value":"C08","Report invalid numeric":"C08","Report unavailable":"C08","Avoid access to unknown":"C08","Reject checksum calc":"C08","Reject conditions deref":"C08","Do not ignore forced":"C08"})
try: props.update(eval(open('/verif/tools/fixprops.py').read()))
except OSError: pass
out=[l for l in open('/verif/known-findings.txt').read().splitlines() if not l.startswith('fixed:')]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h,_,s=l.partition(" ")
    if not s.startswith("fix: "): continue
    s=s[5:]
    p=[v for k,v in props.items() if s.startswith(k)]
    if not p: print("??",s)
    out.append("fixed: property=%s %s %s"%(p[0] if p else "??",h,s))
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
