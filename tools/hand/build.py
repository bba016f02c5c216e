# build.py EDITS DIR [names]: a copy of /repo with hand-written behaviour-preserving rewrites applied;
# then KZ_REPO=DIR KZ_EVIDENCE=DIR/ev python3 -m kz.run Cxx must stay quiet
import sys,importlib,os,shutil,subprocess,re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
def norm(s):
    s='\n'.join(l.rstrip() for l in s.split('\n'))
    s=re.sub(r'(?m)^[ ]*#.*\n','',s)
    return re.sub(r'\n\n+','\n',s)
def build(E,d,sel):
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.check_call(['cp','-a','/repo',d])
    os.makedirs(d+'/ev')
    for n,f,a,b in E:
        if sel and n not in sel: continue
        p=d+'/'+(f if '/' in f else 'python/src/keyczar/'+f)
        s=norm(open(p).read()); a=norm(a)
        if s.count(a)<1: print('NOTFOUND',n,a[:60]); continue
        s=s.replace(a,norm(b),1); open(p,'w').write(s)
        try: compile(s,p,'exec')
        except SyntaxError as x: print('SYNTAX',n,x)
m=importlib.import_module(sys.argv[1])
build(m.E, sys.argv[2], sys.argv[3:])
