"""run.py PROP K SEED [fileglob]: sample K mutants of the property's anchored files, run the quick check; log survivors."""
import sys, json, os, subprocess, random, shutil, re, time, fnmatch
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mutate import cands
from concurrent.futures import ThreadPoolExecutor
import queue
VERIF=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT=os.environ.get('MUT_OUT','/tmp/mut')
os.makedirs(OUT,exist_ok=True)
prop, K, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
glob = sys.argv[4] if len(sys.argv)>4 else "*"
P=[json.loads(l) for l in open(VERIF+'/properties.jsonl')]
p=[x for x in P if x['id']==prop][0]
files=sorted({f for f in re.findall(r'src/probnum/[A-Za-z0-9_/]+\.py',json.dumps(p)) if fnmatch.fnmatch(f,glob)})
pool=[]
for f in files:
    src=open('/repo/'+f).read()
    c=cands(src)
    pool+= [(f,)+x for x in c]
rng=random.Random(seed); rng.shuffle(pool)
# even out over files
per={}
sel=[]
cap=max(2,int(2.0*K/len(files))+1)
for m in pool:
    if per.get(m[0],0)<cap and len(sel)<K:
        per[m[0]]=per.get(m[0],0)+1; sel.append(m)
SL=int(os.environ.get("SLOTS","4"))
slots=queue.Queue()
for i in range(SL):
    w=OUT+'/w_%s_%d'%(prop,i)
    shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo/src',w+'/src',ignore=shutil.ignore_patterns('__pycache__'))
    slots.put(w)
def run(m):
    f,ln,desc,new=m
    w=slots.get()
    try:
        orig=open('/repo/'+f).read()
        with open(w+'/'+f,'w') as fh: fh.write(new)
        env=dict(os.environ,VERIF_SRC=w+'/src',VERIF_WORKERS=str(8//SL),VERIF_SHRINK="0",VERIF_SCALE=os.environ.get("SCALE","1"))
        t=time.time()
        r=subprocess.run(['timeout','400','bash',VERIF+'/check.sh',prop],env=env,capture_output=True,text=True,errors='replace')
        dt=time.time()-t
        with open(w+'/'+f,'w') as fh: fh.write(orig)
        v=[l for l in r.stdout.splitlines() if l.startswith('sub-check')]
        st='killed' if r.returncode==1 and 'VIOLATION' in r.stdout else ('SURVIVED' if r.returncode==0 else 'other rc=%d'%r.returncode)
        line='%s %-9s %4.0fs %s:%d %s   [%s]'%(prop,st,dt,f[12:],ln,desc,v[0] if v else '')
        with open(OUT+'/%s.log'%prop,'a') as fh: fh.write(line+'\n')
        return st
    finally: slots.put(w)
with ThreadPoolExecutor(SL) as ex: rs=list(ex.map(run,sel))
for i in range(SL): shutil.rmtree(OUT+'/w_%s_%d'%(prop,i),ignore_errors=True)
print(prop,{s:rs.count(s) for s in set(rs)},'of pool',len(pool))
