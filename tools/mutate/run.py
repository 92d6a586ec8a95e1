#!/usr/bin/env python3
"""run.py SAMPLE SEED JOBS [file-substring...]: samples mutants, runs the checks of the file's properties on each."""
import json,subprocess,sys,random,os,shutil,tempfile,threading,queue
os.environ.update(GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off')
MAP={'internal/party/VSS.go':'P14 P13 P30','internal/party/client.go':'P13 P15','internal/party/ShareReduce.go':'P18 P19 P30 P23',
'internal/party/ProactivizeAndShareDist.go':'P22 P20 P21 P31 P30 P23','internal/party/RBC.go':'P25 P24 P30 P20','internal/party/main_process.go':'P27 P28 P21 P30',
'internal/party/message_handler.go':'P27 P28 P30','internal/party/pb.go':'P26 P28 P27 P30','internal/party/spb.go':'P26 P28 P27','internal/party/keygen.go':'P29',
'internal/party/party.go':'P12 P13 P17 P31','internal/party/party_utils.go':'P12 P17 P16 P14 P13 P30','pkg/core/dispatche.go':'P17','pkg/core/receive.go':'P16 P30 P17','pkg/core/send.go':'P16 P30 P17','pkg/core/message_encapsulation.go':'P16 P27','pkg/utils':'P16 P27',
'internal/polyring':'P02 P12 P18','internal/bls':'P01 P02 P03 P11','internal/polycommit':'P04 P05 P06 P07 P08 P09 P10 P11','cmd/':'P23'}
def props(f):
    best=''
    for k in MAP:
        if f.startswith(k) and len(k)>len(best): best=k
    return MAP.get(best,'').split()
n,seed,jobs=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]); subs=sys.argv[4:]
files=[f for f in subprocess.check_output(['git','-C','/repo','ls-files','*.go'],text=True).split() if not f.endswith('_test.go') and props(f) and (not subs or any(s in f for s in subs))]
muts=[json.loads(l) for l in subprocess.check_output(['/tmp/mutate']+files,cwd='/repo',text=True).splitlines()]
random.Random(seed).shuffle(muts); print(len(muts),'mutants; sampling',n,flush=True); muts=muts[:n]
q=queue.Queue()
for i,m in enumerate(muts): q.put((i,m))
lock=threading.Lock(); out=open('/tmp/mut_%d.jsonl'%seed,'a')
def work(w):
    d='/tmp/mutw%d_%d'%(seed,w); shutil.rmtree(d,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',d])
    while True:
        try: i,m=q.get_nowait()
        except queue.Empty: break
        p=d+'/'+m['File']; s=open(p,'rb').read()
        open(p,'wb').write(s[:m['Off']]+m['New'].encode()+s[m['Off']+m['Len']:])
        r=subprocess.run(['go','build','./...'],cwd=d,capture_output=True)
        res='nobuild'
        if r.returncode==0:
            res='SURVIVED'
            for pr in props(m['File']):
                v=tempfile.mkdtemp(prefix='/tmp/mutv')
                subprocess.check_call(['cp','-r','/verif/harness','/verif/known_findings.txt','/verif/properties.jsonl',v])
                try: o=subprocess.run(['timeout','300','/verif/bin/verif','run',pr],env=dict(os.environ,VERIF_REPO=d,VERIF_WORKERS=str(max(2,8//jobs)),VERIF_DIR=v),capture_output=True,text=True)
                finally: shutil.rmtree(v)
                if 'VIOLATION property=' in o.stdout: res='killed '+pr; break
                if 'inconclusive' not in o.stdout: res='ERROR '+pr+' '+(o.stdout+o.stderr)[-200:]; break
                last=o.stdout.strip().splitlines()[-1]
                if ' 0 inconclusive' not in last: res='SURVIVED(inc %s)'%pr if res=='SURVIVED' else res
        open(p,'wb').write(s)
        with lock:
            out.write(json.dumps(dict(m,res=res))+'\n'); out.flush()
            if not res.startswith('killed') and res!='nobuild': print(res,m['File'],m['Line'],m['Func'],m['Desc'],flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(w,)) for w in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
