#!/usr/bin/env python3
# seed.py ID PROP PKG(libcomfo|comfoserver|.) DEMOFILE NEEDS BREAKS  FILE OLD NEW [FILE OLD NEW ...]
import sys, os, subprocess, json, shutil
id_, prop, pkg, demo, needs, breaks = sys.argv[1:7]
ed = [a for a in sys.argv[7:] if a!='-nocheck']
W='/tmp/seedwt%d'%os.getpid()
subprocess.run(['rm','-rf',W,'/tmp/gvroot%d'%os.getpid()]); subprocess.run(['cp','-a','/repo',W],check=True)
for i in range(0,len(ed),3):
    f=os.path.join(W,ed[i]); s=open(f).read()
    if s.count(ed[i+1])!=1: print('OLD count',s.count(ed[i+1]),'in',ed[i]); sys.exit(2)
    open(f,'w').write(s.replace(ed[i+1],ed[i+2]))
d='/verif/seeded/'+id_; os.makedirs(d,exist_ok=True)
diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(diff)
# blame check
added=set()
base='fbe49d8'
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
if demo.endswith('.go'):
    shutil.copy(demo,d+'/demo_test.go.txt')
    dst={'libcomfo':'libcomfo/','comfoserver':'comfoserver/','.':'','rpc/comfo':'rpc/comfo/'}[pkg]
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Runs the demonstration as an extra test of the package, through an overlay.
. /opt/vp/env.sh 2>/dev/null
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{dst}zz_demo_test.go\\": \\"$tmp/demo_test.go\\"}}}}" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run 'TestDemo' ./{pkg if pkg!='.' else ''}
''')
else:
    shutil.copy(demo,d+'/demo.sh')
    if prop=='C27': shutil.copy('/tmp/d/c27.py',d+'/demo.py')
os.chmod(d+'/demo.sh',0o755)
env=dict(os.environ)
def demo_run(cwd): 
    r=subprocess.run([d+'/demo.sh'],cwd=cwd,capture_output=True,text=True); return r
r=subprocess.run(['bash','-c','. /opt/vp/env.sh; cd '+W+' && go build ./... && go test ./... 2>&1 | tail -8'],capture_output=True,text=True); print('BUILD/TEST',r.returncode,r.stdout[-600:],r.stderr[-600:])
a=demo_run('/repo'); b=demo_run(W)
print('demo unchanged',a.returncode, a.stdout[-300:] if a.returncode else ''); print('demo patched',b.returncode,b.stdout[-400:])
ap=subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff']); print('applies',ap.returncode)
# original lines check
if '-nocheck' not in sys.argv:
    R='/tmp/gvroot%d'%os.getpid(); os.makedirs(R+'/evidence',exist_ok=True); os.path.islink(R+'/contracts') or os.symlink('/verif/contracts',R+'/contracts')
    subprocess.run(['bash','-c','. /opt/vp/env.sh; cd '+W+f' && /tmp/gover check -prop {prop} -tier quick -root {R} -dir {W} -noreplay 2>&1 | tail -12'])
subprocess.run(['rm','-rf',W,'/tmp/gvroot%d'%os.getpid()])
