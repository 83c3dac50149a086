import glob,os,subprocess,sys,re
from concurrent.futures import ThreadPoolExecutor
B='/repo/_build/vp_app_tests'
def one(th):
    n=os.path.basename(th)[:-7]
    inc=f'{B}/commsdsl2comms/{n}/include'; c=f'{B}/commsdsl2c/{n}'
    d=f'/tmp/w/c_{n}'; os.makedirs(d,exist_ok=True)
    r=subprocess.run(['cxxtestgen','--error-printer','-o',f'{d}/t.cpp',th],capture_output=True,text=True)
    if r.returncode: return n,'GEN',r.stdout+r.stderr
    cpps=[]
    for x,_,fs in os.walk(c):
        cpps+=[x+'/'+f for f in fs if f.endswith('.cpp')]
    r=subprocess.run(['g++','-std=c++17','-O0','-Wall','-Wextra','-isystem','/verif/mcomms','-I',inc,'-I',c,'-I',c+'/include','-o',f'{d}/t',f'{d}/t.cpp']+cpps,capture_output=True,text=True)
    open(f'{d}/log','w').write(r.stderr)
    if r.returncode: return n,'COMPILE',r.stderr
    r=subprocess.run([f'{d}/t'],capture_output=True,text=True)
    return n,('OK' if r.returncode==0 else 'RUN'),r.stdout+r.stderr
ths=[t for t in glob.glob('/repo/app/commsdsl2c/test/test*/*.th') if not sys.argv[1:] or re.search(r'/(test\d+)/',t).group(1) in sys.argv[1:]]
with ThreadPoolExecutor(8) as ex:
    for n,s,o in ex.map(one,ths):
        print(n,s,'' if s=='OK' else '\n   '.join([l[:300] for l in o.splitlines() if 'rror' in l][:5]))
