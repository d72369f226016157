import subprocess,os,sys,shutil,json
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false')
ST=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tree(name,edits,files={},props=None):
    W=f'/tmp/ref/w-{name}'; subprocess.run(['rm','-rf',W]); os.makedirs(W)
    subprocess.run(['cp','-a','/repo',W+'/repo'],check=True)
    for f,o,n in edits:
        p=f'{W}/repo/{f}'; s=open(p).read()
        assert s.count(o)>=1,(name,f,o)
        open(p,'w').write(s.replace(o,n))
    for f,t in files.items(): open(f'{W}/repo/{f}','w').write(t)
    r=subprocess.run('gofmt -l . ; go build ./... && go vet . ./encoding/... ; go test -json ./... > ../t',shell=True,cwd=W+'/repo',env=env,capture_output=True,text=True)
    print(name,r.stdout,r.stderr)
    bad=set()
    for l in open(W+'/t'):
        try:d=json.loads(l)
        except:continue
        if d.get('Test') and d['Action']=='fail':
            for k in (d['Package']+'/'+d['Test'],d['Package']+'::'+d['Test']):
                if k in ST: bad.add(k)
    print(name,'tests failing',bad,flush=True)
    for P in (os.environ.get('P','').split() or props or ['C%02d'%i for i in range(1,15)]+['C24']):
        e=dict(os.environ,VERIF_REPO=W+'/repo',VERIF_BUILD=W+'/build')
        r=subprocess.run(['/verif/check.sh',P],env=e,capture_output=True,text=True,timeout=1800)
        print(name,P,r.returncode,(r.stdout.strip().splitlines() or [''])[-1][:200], r.stderr[-600:] if r.returncode else '',flush=True)
        if r.returncode: print(r.stdout[-3000:])
    shutil.rmtree(W)
