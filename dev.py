#!/usr/bin/env python3
"""dev.py FN CASE PARAMS [elsym args]: one run, short summary (development aid)"""
import subprocess,sys,json,os
D='/verif/build/target/release'
a=sys.argv
e=dict(os.environ,RUST_BACKTRACE='0')
p=subprocess.run(['timeout','900','/verif/build/engine/release/elsym','--ll',D+'/deps/harness.ll','--lib',D+'/libharness.so','--replayer','/verif/build/engine/release/replayer','--fn',a[1],'--case',a[2],'--params',a[3],'--out','/tmp/dev.json']+a[4:],capture_output=True,text=True,env=e)
if p.stdout or p.stderr: print((p.stdout+p.stderr)[:3000])
if p.returncode: print('rc',p.returncode); sys.exit()
d=json.load(open('/tmp/dev.json'))
if d.get('error'): print(d); sys.exit()
print(a[1],a[2],a[3],' '.join(f"{k}={d[k]}" for k in ['paths','pruned','bounded','exhausted','steps','decisions','checks','queries','unknown','cache_hits','solver_time','max_query','time','total_time','validated','diverged','covers']))
for k in ['violations','unreproduced','errors','mismatches']:
    for x in d[k][:3]: print('  ',k,str(x)[:600])
