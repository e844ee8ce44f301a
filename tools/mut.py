# mut.py FILE.py [names] : FILE defines M = [(name, props, [(path, old, new)...], expect)] expect 'bad'/'quiet'
import sys,os,subprocess,json,shutil,glob
g={}; exec(open(sys.argv[1]).read(),g)
W='/tmp/mutw/repo'
if not os.path.exists(W):
    os.makedirs('/tmp/mutw',exist_ok=True); subprocess.run(['cp','-a','/repo',W],check=True)
for name,props,eds,exp in g['M']:
    if len(sys.argv)>2 and name not in sys.argv[2:]: continue
    subprocess.run('rsync -a --delete /repo/src/ %s/src/ 2>/dev/null || (rm -rf %s/src && cp -a /repo/src %s/src)'%(W,W,W),shell=True,check=True)
    bad=False
    for p,o,n in eds:
        f=f'{W}/src/{p}'; s=open(f).read()
        if s.count(o)<1: print(name,'EDIT NOT FOUND',o[:60]); bad=True; break
        open(f,'w').write(s.replace(o,n,1))
    if bad: continue
    for p in props.split(','):
        for f in glob.glob(f'/tmp/om/{p}.*'): os.remove(f)
        os.makedirs('/tmp/om',exist_ok=True)
        b='--lib --bins' if p in('C39','C30','C27') else '--lib'
        r=subprocess.run(['timeout','-k','2','60','bash','/verif/sa.sh'],env=dict(os.environ,SA_PROP=p,SA_OUT='/tmp/om',SA_REPO=W,SA_TGT='/tmp/mutw/tgt',SA_ARGS=b),stdout=subprocess.DEVNULL,stderr=open('/tmp/mut.err','w'))
        fs=[];er=[];ms=0
        for f in glob.glob(f'/tmp/om/{p}.*.json'):
            d=json.load(open(f)); fs+=d['findings']; er+=d['errors']; ms+=d['ms']
        if not glob.glob(f'/tmp/om/{p}.*.json'): er=['NO RESULT '+open('/tmp/mut.err').read()[-600:]]
        ok=(exp=='bad' and fs) or (exp=='quiet' and not fs and not er)
        print('ok  ' if ok else 'MISS' if exp=='bad' else 'ALARM',name,p,len(fs),'findings',ms,'ms',sorted({(x['func'].split('::')[-1],x['detail'][:70]) for x in fs})[:3],er[:2])
