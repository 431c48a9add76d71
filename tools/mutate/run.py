# mutation campaign: run.py ID SEED SECONDS [files] [edits per mutant]; works in $MUTDIR (default /tmp/mut), never in /repo
import sys, os, random, subprocess, json, time
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); import gen
D=os.environ.get('MUTDIR','/tmp/mut'); os.makedirs(D,exist_ok=True)
wid=sys.argv[1]; seed=int(sys.argv[2]); limit=float(sys.argv[3]); tags=sys.argv[4].split(',') if len(sys.argv)>4 else list(gen.FF)[:10]; k=int(sys.argv[5]) if len(sys.argv)>5 else 1
rnd=random.Random(seed); T=time.time()
R=D+'/repo%s'%wid; V=D+'/verif%s'%wid; W=int(os.environ.get('W','3'))
if not os.path.exists(R): subprocess.run(['cp','-a','/repo',R],check=True)
if not os.path.exists(V):
    os.makedirs(V)
    for x in ('dv','harness','lemmas'): subprocess.run(['cp','-a',os.path.join(HERE,'..','..',x),V],check=True)
    subprocess.run("grep -rl '/repo' %s/harness %s/dv | xargs sed -i 's#/repo#%s#g'"%(V,V,R),shell=True)
log=open(D+'/log_%s.jsonl'%wid,'a')
env=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=R+'/target', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='1')
st={}
def sh(c,t=200,**kw):
    try: return subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,env=env)
    except subprocess.TimeoutExpired: return None
while time.time()-T<limit:
    tag=rnd.choice(tags); f,src,ed=gen.gen(tag,rnd,k)
    sh('git -C %s checkout -q -- .'%R); open(R+'/src/'+f,'w').write(src)
    r=sh('cd %s && timeout 60 cargo +stable test --offline 2>&1 | grep -a "test result" | head -1'%R)
    if r is None or not r.stdout.strip(): st['nobuild']=st.get('nobuild',0)+1; continue
    if '121 passed; 0 failed' not in r.stdout: st['killed']=st.get('killed',0)+1; continue
    b=sh('%s/dv/build.sh %s/tgt%s'%(V,D,wid))
    if b is None or b.returncode: st['harness']=st.get('harness',0)+1; continue
    j=D+'/res%s.json'%wid
    if os.path.exists(j): os.remove(j)
    e=sh('python3-vt %s/eval.py %s/tgt%s %s %d %s'%(HERE,D,wid,tag,W,j),900)
    try: res=json.load(open(j))
    except Exception: res={'bad':[['EVAL','crash '+(e.stderr[-500:] if e else 'timeout'),None]],'br':[]}
    kind='SURVIVED' if not res['bad'] and not res['br'] else 'undecided' if all(x[1].startswith('UNDEC') for x in res['bad']) and not res['br'] else 'found' if any(x[2] and x[2]!='error' for x in res['bad']) else 'nocex'
    st[kind]=st.get(kind,0)+1
    log.write(json.dumps({'tag':tag,'edits':ed,'kind':kind,'bad':res['bad'][:12],'nbad':len(res['bad']),'br':res['br'][:5],'t':round(time.time()-T)})+'\n'); log.flush()
    open(D+'/st_%s'%wid,'w').write(json.dumps(st))
