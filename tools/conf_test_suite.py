#!/usr/bin/env python3
import glob,os,subprocess,sys,re
from concurrent.futures import ThreadPoolExecutor
B='/repo/_build/vp_app_tests/commsdsl2comms'
def one(n):
    th=f'/repo/app/commsdsl2comms/test/test{n}/test{n}Test.th'
    inc=f'{B}/test{n}/include'
    d=f'/tmp/w/t{n}'; os.makedirs(d,exist_ok=True)
    r=subprocess.run(['cxxtestgen','--error-printer','-o',f'{d}/t.cpp',th],capture_output=True,text=True)
    if r.returncode: return n,'GEN',r.stdout+r.stderr
    r=subprocess.run(['g++','-std=c++11','-O0','-Wall','-Wextra','-isystem','/verif/mcomms','-I',inc,'-o',f'{d}/t',f'{d}/t.cpp'],capture_output=True,text=True)
    open(f'{d}/log','w').write(r.stderr)
    if r.returncode: return n,'COMPILE',r.stderr
    r=subprocess.run([f'{d}/t'],capture_output=True,text=True)
    return n,('OK' if r.returncode==0 else 'RUN'),r.stdout+r.stderr
ns=[int(x) for x in sys.argv[1:]] or sorted(int(re.search(r'test(\d+)$',p).group(1)) for p in glob.glob('/repo/app/commsdsl2comms/test/test*'))
with ThreadPoolExecutor(8) as ex:
    for n,s,o in ex.map(one,ns):
        errs=[l for l in o.splitlines() if 'error' in l.lower()]
        print(n,s,'' if s=='OK' else '\n   '.join([e[:260] for e in errs[:(3 if len(ns)>3 else 12)]]))
