#!/usr/bin/env python3
"""mutate.py OUT.jsonl [FILE_SUBSTRING...]: mutates copies of /repo, runs the repository's tests on each mutant and the
checks on those that pass; writes one line per mutant. Resumes: mutants already in OUT.jsonl are skipped."""
import json, os, re, shutil, subprocess, sys, threading, queue, glob, random
R='/tmp/mut'
N=int(os.environ.get('MUT_N','7'))
LIMIT=int(os.environ.get('MUT_MAX','1000000'))
MAP=[ # file prefix -> packages to test, checks to run
 ('recordinfer/',['./recordinfer','./csvinfer','./service','./playground'],['C02','C03','C28','C01','C07']),
 ('csvinfer/',['./csvinfer','./service'],['C03','C02','C07']),
 ('csvtoproto/csvtoproto_go',['./csvtoproto','./service','./examples/...'],['C05','C01','C06','C28']),
 ('csvtoproto/',['./csvtoproto','./service','./examples/...'],['C04','C05','C28','C01']),
 ('service/',['./service'],['C06','C07','C28']),
 ('csvcoder/',['./csvcoder'],['C08','C09']),
 ('textcoder/',['./textcoder','./csvcoder'],['C10','C11','C08']),
 ('csvtoprotoparse/',['./csvtoprotoparse','./examples/...'],['C12','C05']),
 ('protocp/',['./protocp'],['C13']),
 ('codegen/',['./codegen','./csvtoproto'],['C14']),
 ('textpos/',['./textpos','./sexpr/...'],['C15']),
 ('sexpr/',['./sexpr/...'],['C16','C17']),
 ('wirepath/',['./wirepath'],['C18','C19']),
 ('rdf/iri/',['./rdf/...'],['C20','C21','C22','C25']),
 ('rdf/ntriples/',['./rdf/...'],['C23','C24','C25']),
 ('rdf/rdfxml/rdfxml',['./rdf/...'],['C25','C26']),
 ('xmlinfer/',['./xmlinfer'],['C27','C28']),
 ('internal/protoreflectcmp/',['./internal/...'],['C29']),
 ('cmd/xtoproto/',['./cmd/...'],['C30']),
 ('cmd/xtoproto_web',['./cmd/...'],['C32']),
 ('playground/',['./playground/...'],['C31']),
 ('releasing/make',['./releasing/...'],['C34']),
 ('rdf/rdfxml/generate',['./rdf/...'],['C35']),
 ('releasing/generate',['./releasing/...'],['C33']),
]
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',TZ='UTC',GOMAXPROCS='2',GOCACHE=R+'/cache')
def muts(files):
    os.makedirs(R,exist_ok=True)
    subprocess.check_call(['go','build','-o',R+'/mutate','main.go'],cwd='/verif/tools/mutate',env=dict(env,GOFLAGS='-mod=mod'))
    return json.loads(subprocess.check_output([R+'/mutate']+files,cwd='/repo',env=env))
def key(m): return '%s:%d:%d:%s'%(m['file'],m['Off'],m['End'],m['Repl'])
def worker(i,q,out,lock):
    w=f'{R}/w{i}'; repo=w+'/repo'; ver=w+'/verif'
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.check_call(['cp','-a','/repo',repo]); os.makedirs(ver)
    for x in ('check','harness','known_findings.txt'): subprocess.check_call(['cp','-a','/verif/'+x,ver+'/'+x])
    s=open(ver+'/check').read(); open(ver+'/check','w').write(s.replace('/root/.cache/go-build',R+'/cache'))
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=repo+'/'+m['file']; src=open(p,'rb').read()
        a,b=m['Off'],m['End']
        open(p,'wb').write(src[:a]+m['Repl'].encode()+src[b:])
        res=dict(m)
        try:
            pkgs,checks=next((t,c) for pre,t,c in MAP if m['file'].startswith(pre))
            bld=subprocess.run(['go','build','./'+os.path.dirname(m['file'])],cwd=repo,env=dict(env,GOFLAGS='-mod=readonly'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if bld.returncode: res['result']='nobuild'
            else:
                try:
                    t=subprocess.run(['go','test','-vet=off','-timeout=60s']+pkgs,cwd=repo,env=dict(env,GOFLAGS='-mod=readonly'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=120)
                    bad=t.returncode!=0
                except subprocess.TimeoutExpired: bad=True
                if bad: res['result']='tests'
                else:
                    res['result']='SURVIVED'
                    for c in checks:
                        if not os.path.isdir(ver+'/harness/'+c.lower()): continue
                        try:
                            t=subprocess.run([ver+'/check',c],cwd=ver,env=dict(env,VERIF_REPO=repo,VERIF_SEED='1',VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=600)
                            rc=t.returncode
                        except subprocess.TimeoutExpired: rc='timeout'
                        if rc!=0:
                            res['result']='caught' if rc==1 else 'ERROR'
                            res['by']=c; res['rc']=rc
                            if rc!=1: res['out']=t.stdout[-600:]
                            break
        finally: open(p,'wb').write(src)
        with lock:
            out.write(json.dumps(res)+'\n'); out.flush()
def main():
    outp=sys.argv[1]; subs=sys.argv[2:]
    files=[]
    for root,_,fs in os.walk('/repo'):
        for f in fs:
            rel=os.path.relpath(os.path.join(root,f),'/repo')
            if f.endswith('.go') and not f.endswith('_test.go') and not f.endswith('.pb.go') and any(rel.startswith(x[0]) and os.path.isdir('/verif/harness/'+x[2][0].lower()) for x in MAP) and (not subs or any(s in rel for s in subs)):
                files.append(rel)
    ms=muts(sorted(files))
    done=set()
    if os.path.exists(outp):
        done={key(json.loads(l)) for l in open(outp)}
    ms=[m for m in ms if key(m) not in done]
    random.Random(1).shuffle(ms)
    ms=ms[:LIMIT]
    print(len(ms),'mutants',flush=True)
    q=queue.Queue()
    for m in ms: q.put(m)
    lock=threading.Lock()
    with open(outp,'a') as out:
        ts=[threading.Thread(target=worker,args=(i,q,out,lock)) for i in range(N)]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
