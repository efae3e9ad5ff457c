#!/usr/bin/env python3
# mut.py PROPS FILE OLD NEW [FILE OLD NEW ...]
import sys,subprocess,shutil,os
props=sys.argv[1].split(','); a=sys.argv[2:]
d='/tmp/mut/r%d'%os.getpid()
subprocess.run(['cp','-a','/repo',d],check=True)
try:
    for i in range(0,len(a),3):
        f=f'{d}/{a[i]}'; s=open(f).read()
        if a[i+1] not in s: print('NO MATCH',a[i+1]); sys.exit(2)
        s=s.replace(a[i+1],a[i+2],1); open(f,'w').write(s)
    b=subprocess.run('. /verif/env.sh; cd %s && go build ./... && go vet . ./libcomfo ./comfoserver && go test ./... 2>&1 | grep -v "no test files" | tail -20'%d,shell=True,capture_output=True,text=True)
    print(b.stdout[-1500:],b.stderr[-800:])
    os.makedirs(d+'.v/contracts',exist_ok=True)
    subprocess.run(f'cp /verif/contracts/* {d}.v/contracts/',shell=True)
    for p in props:
        r=subprocess.run('. /verif/env.sh; /tmp/gover check -prop %s -root %s.v -dir %s -noreplay'%(p,d,d),shell=True,capture_output=True,text=True)
        out=r.stdout.splitlines()
        print(p,'exit',r.returncode, r.stderr[-500:])
        for l in out[:6]: print('   ',l[:300])
        if len(out)>6: print('    ...',len(out),out[-1][:200])
finally:
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree(d+'.v',ignore_errors=True)
