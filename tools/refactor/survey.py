#!/usr/bin/env python3
import sys,os,subprocess,json,tempfile,shutil,concurrent.futures,re,glob
sys.path.insert(0,'/verif/tools'); import props
S=subprocess.run(['rustc','+nightly','--print','sysroot'],capture_output=True,text=True).stdout.strip()
def one(f):
    i=os.path.basename(f)[:-5]
    ps=open(f[:-5]+'.props').read().split() if os.path.exists(f[:-5]+'.props') else ['C14']
    ps=[x for p in ps for x in p.split(',')]
    mods=set()
    for p in ps:
        m=props.PROPS[p]['modules']
        if m is None: mods=None;break
        mods|=set(m)
    t=tempfile.mkdtemp(prefix='sv-')
    try:
        shutil.copytree('/repo/src',t+'/src')
        r=subprocess.run(['patch','-p1','-s','-i',f],cwd=t,capture_output=True,text=True)
        if r.returncode: return i,'patch fails',r.stdout
        env=dict(os.environ,LD_LIBRARY_PATH=S+'/lib')
        r=subprocess.run(['/verif/typer/target/release/typer',t+'/types.txt',t+'/src/lib.rs','--crate-type','lib','--edition','2018','--sysroot',S,'--crate-name','dumb_crypto'],env=env,capture_output=True,text=True,cwd=t)
        cmd=['/verif/weaver/target/release/weaver',t+'/src',t+'/types.txt','/verif/specs',t+'/woven.rs',t+'/woven.json']
        if mods: cmd+=['--modules',','.join(sorted(mods))]
        r=subprocess.run(cmd,capture_output=True,text=True)
        if r.returncode: return i,'weaver fails',(r.stdout+r.stderr)[-800:]
        j=json.load(open(t+'/woven.json')); out=[]
        for x in j['functions']:
            for k in ('errors','notes','lost','inlined'):
                if x[k]: out.append('%s %s %s'%(x['fn'],k,x[k]))
        if j['uncontracted']: out.append('uncontracted %s'%j['uncontracted'])
        if j['missing']: out.append('missing %s'%j['missing'])
        r=subprocess.run(['verus','woven.rs','--crate-type','lib','--triggers-mode','silent','--num-threads','2'],capture_output=True,text=True,cwd=t)
        o=r.stdout+r.stderr
        m=re.search(r'verification results:: (\d+) verified, (\d+) errors',o)
        src=open(t+'/woven.rs').read().split('\n')
        for e in re.finditer(r'^error(?:\[\w+\])?: (.*)\n\s+--> woven.rs:(\d+)',o,re.M):
            out.append('ERR %s | %s'%(e.group(1),src[int(e.group(2))-1].strip()[:150]))
        for e in re.finditer(r'^error(?:\[\w+\])?: (?!.*\n\s+-->)(.*)',o,re.M): out.append('ERR %s'%e.group(1))
        st='PROVED' if m and m.group(2)=='0' and r.returncode==0 else ('errors %s'%m.group(2) if m else 'no result')
        return i,st,'\n'.join('    '+x for x in out)
    finally: shutil.rmtree(t)
fs=sys.argv[1:] or sorted(glob.glob('/tmp/refac/*.diff'))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for i,s,o in ex.map(one,fs): print('== %-22s %s'%(i,s)); print(o) if o and s!='PROVED' else None; sys.stdout.flush()
