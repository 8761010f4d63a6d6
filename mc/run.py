#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- build the property's harnesses from /repo, explore, report.
   run.py --replay <replay.json>       -- re-run one recorded counterexample."""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo'); SCL=REPO+'/secure-computation-library'
sys.path.insert(0,HERE)
import checks
CACHE=os.path.join(VERIF,'.cache')
COMMON=['-std=gnu++17','-include','cstdint','-march=native','-maes','-msse4.1','-w','-g1','-D_GLIBCXX_ASSERTIONS','-pthread','-fno-omit-frame-pointer']
SAN={'asan':['-fsanitize=address'],'tsan':['-fsanitize=thread'],'none':[],'vtsan':['-fsanitize=thread'],'ubsan':['-fsanitize=address','-fsanitize=undefined','-fno-sanitize-recover=undefined','-fno-sanitize=vptr']}

def repo_hash():
    h=hashlib.sha256()
    for root in (SCL+'/include',SCL+'/src',REPO+'/src',REPO+'/experiments'):
        for d,_,fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()
def tree_hash(d):
    h=hashlib.sha256()
    for r,_,fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith(('.h','.cc','.inc')): p=os.path.join(r,f); h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()

class BuildError(Exception): pass
def compile_one(src,flags,base,bdir):
    key=hashlib.sha256((base+'\0'+src+'\0'+open(src).read()+'\0'+' '.join(flags)).encode()).hexdigest()[:40]
    obj=os.path.join(CACHE,key+'.o')
    if os.path.exists(obj): os.utime(obj); return obj
    tmp=tempfile.mktemp('.o',key,bdir)   # two binaries may share a source: compiled twice, never into the same file
    r=subprocess.run(['g++','-c',src,'-o',tmp]+flags,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0: raise BuildError('compiling %s failed:\n%s'%(src,r.stdout[-4000:]))
    try: os.replace(tmp,obj)
    except OSError: t2='%s.%s'%(obj,os.path.basename(tmp)); shutil.copy(tmp,t2); os.replace(t2,obj)
    return obj
def sources(kind):
    s=[]
    for k in kind:
        if k=='scl': s+=sorted(glob.glob(SCL+'/src/**/*.cc',recursive=True))
        elif k=='tp': s+=sorted(glob.glob(REPO+'/src/**/*.cc',recursive=True))
        elif k.startswith('scl:'): s+=sorted(p for p in glob.glob(SCL+'/src/**/*.cc',recursive=True) if any(x in p for x in k[4:].split('|')))
        elif k.startswith('scl!'): s+=sorted(p for p in glob.glob(SCL+'/src/**/*.cc',recursive=True) if not any(p.endswith(x) for x in k[4:].split('|')))
        else: s.append(os.path.join(REPO,k))
    return s
def build(b,bdir,base,pool):
    san=SAN[b.get('san','asan')]
    inc=['-I'+os.path.join(HERE,'shim',s) for s in b.get('shim',[])]+['-I'+HERE+'/inc','-I'+HERE,'-I'+SCL+'/include','-I'+REPO+'/src']
    fl=COMMON+['-O%s'%b.get('opt','1')]+san+inc+b.get('flags',[])
    srcs=[(HERE+'/inc/mc_main.cc',fl)]+[(os.path.join(HERE,'h',s),fl+b.get('hflags',[])) for s in b['src'] if s!='sched.cc']+[(s,fl+b.get('rflags',[])) for s in sources(b.get('repo',['scl']))]
    if 'sched.cc' in b['src']: srcs.append((HERE+'/h/sched.cc',COMMON+['-O2','-fPIC','-I'+HERE+'/inc']))   # the controlled scheduler itself is never instrumented
    futs=[pool.submit(compile_one,s,f,base,bdir) for s,f in srcs]
    return [f.result() for f in futs],san
def link(b,objs,san,bdir):
    exe=os.path.join(bdir,b['name'])
    if san==SAN['vtsan']: san=[]
    if 'sched.cc' in b['src']:   # a library of its own, so that it shares no instantiation with instrumented code
        lib=os.path.join(bdir,'libsched-%s.so'%b['name']); so=objs.pop()
        r=subprocess.run(['g++','-shared','-pthread','-o',lib,so,'-Wl,-Bsymbolic','-Wl,--version-script='+HERE+'/h/sched.map','-ldl'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode!=0: raise BuildError('linking the scheduler failed:\n'+r.stdout[-4000:])
        objs.append(lib); san=san+['-rdynamic','-Wl,-rpath,'+bdir]
    r=subprocess.run(['g++','-o',exe,'-pthread']+san+objs+b.get('ldflags',[])+['-ldl'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0: raise BuildError('linking %s failed:\n%s'%(b['name'],r.stdout[-4000:]))
    return exe
ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_stack_use_after_return=0:handle_abort=1',
         TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0',UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')
def run_exe(exe,args,out,cwd):
    os.makedirs(out,exist_ok=True); e=dict(ENV,VERIF_SCRATCH=cwd)
    p=subprocess.run([exe,'--out',out]+args,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,env=e,cwd=cwd)
    rs=[]
    for l in p.stdout.splitlines():
        try: rs.append(json.loads(l))
        except ValueError: pass
    if p.returncode!=0: raise BuildError('%s exited with %d: %s'%(exe,p.returncode,p.stderr[-2000:]))
    return rs
def crash_key(r):
    if r['hung']: return 'hang/'+r['section']
    if r['status']>>8 in (77,78) and (r['status']&127)==0: return None
    import re
    log=r.get('log','') or ''
    m=re.search(r'(?:AddressSanitizer|ThreadSanitizer): ([A-Za-z0-9_\- ]+?)(?: on | \(pid|:|$)',log)
    kind=m.group(1).strip() if m else ('signal-%d'%(r['status']&127) if r['status']&127 else 'exit-%d'%(r['status']>>8))
    m2=re.search(r'runtime error: ([^\n]*)',log)
    if m2: kind='ub: '+re.sub(r'0x[0-9a-f]+|\d+','N',m2.group(1))[:80]
    fr=[f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) [/\w]',log)]
    where=''
    m3=re.findall(r'in ((?:scl|tp)::[\w:~]+)',log)
    if m3: where='@'+m3[0]
    return 'crash/%s/%s%s'%(r['section'],kind,where)
def failures(rs):
    """-> list of (key, detail, section, choices)"""
    o=[]; internal=[]
    for r in rs:
        res=r.get('result')
        if res:
            for f in res['fails']: o.append((f['key'],f['detail'],r['section'],f['choices'],f['count']))
        if not r['ok']:
            k=crash_key(r)
            if k is None: internal.append('%s: %s'%(r['section'],r.get('log','')))
            else: o.append((k,(r.get('note') or '')+'\n'+(r.get('log') or ''),r['section'],r.get('choices',[]),1))
    return o,internal
def main():
    if sys.argv[1]=='--replay': return replay(sys.argv[2])
    if sys.argv[1]=='--selfcheck':   # everything is compiled from /repo by each check; setup only proves that the tools are there
        return subprocess.run(['g++','-std=gnu++17','-w','-fsyntax-only','-I'+HERE+'/inc',HERE+'/inc/mc_main.cc']).returncode
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    only=os.environ.get('MC_ONLY'); onlyb=os.environ.get('MC_BIN')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); os.makedirs(CACHE,exist_ok=True); os.makedirs(VERIF+'/evidence/replay',exist_ok=True)
    known=json.load(open(VERIF+'/known_findings.json'))
    knownkeys={f['key']:f for f in known['findings'] if f['property']==pid}
    spec=checks.CHECKS[pid]
    bdir=tempfile.mkdtemp(prefix='mc-%s-'%pid.lower()); rc=0
    try:
        base=repo_hash()+tree_hash(HERE+'/inc')+tree_hash(HERE+'/shim')+hashlib.sha256(b''.join(open(p,'rb').read() for p in sorted(glob.glob(HERE+'/h/*.h')))).hexdigest()
        allr=[]; fails=[]; internal=[]
        bins=[b for b in spec['bins'] if tier=='thorough' or not b.get('thorough_only')]
        if onlyb: bins=[b for b in bins if b['name']==onlyb]
        with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(8) as outer:
            built=list(outer.map(lambda b:build(b,bdir,base,pool),bins))
        exes=[]
        with cf.ThreadPoolExecutor(8) as pool:
            exes=list(pool.map(lambda x:link(x[0],x[1][0],x[1][1],bdir),zip(bins,built)))
        tb=time.time()-t0
        for b,exe in zip(bins,exes):
            lim=b.get('limit',480 if tier=='quick' else 800); 
            args=['--limit',str(max(20,min(lim,(780 if tier=='quick' else 86400)-(time.time()-t0)))),'--jobs',str(b.get('jobs',8)),'--hang',str(b.get('hang',60))]
            if tier=='thorough': args.append('--thorough'); args[1]=str(b.get('limit_thorough',3600))
            if only: args+=['--only',only]
            rs=run_exe(exe,args,os.path.join(bdir,'out-'+b['name']),bdir)
            f,i=failures(rs); internal+=[b['name']+': '+x for x in i]
            allr+=[(b,r) for r in rs]
            seen=set()
            for key,detail,sec,ch,cnt in f:
                if key in seen: continue
                seen.add(key); fails.append((b,exe,key,detail,sec,ch,cnt))
        viol=[]; kf=[]
        for b,exe,key,detail,sec,ch,cnt in fails:
            if key in knownkeys: kf.append(key); continue
            if len(viol)>=5: continue
            ok=False
            for attempt in range(1 if b.get('noreplay') else 2):
                if b.get('noreplay'): ok=True; break
                ra=['--replay',sec,','.join(map(str,ch)),'--jobs','1','--hang','120']+(['--thorough'] if tier=='thorough' else [])
                if not ch: ra=['--only',sec,'--limit','300','--hang','120']+(['--thorough'] if tier=='thorough' else [])
                rr,ii=failures(run_exe(exe,ra,os.path.join(bdir,'replay'),bdir))
                if any(x[0]==key or (key.startswith(('crash/','hang/')) and x[0].startswith(('crash/','hang/'))) for x in rr): ok=True; break
                if key.startswith(('crash/','hang/')) and ch:   # state left by earlier executions may be needed: the section again
                    rr,ii=failures(run_exe(exe,['--only',sec,'--limit','300']+(['--thorough'] if tier=='thorough' else []),os.path.join(bdir,'replay'),bdir))
                    if any(x[0]==key for x in rr): ok=True; break
            h=hashlib.sha256(key.encode()).hexdigest()[:10]
            rp=VERIF+'/evidence/replay/%s-%s.json'%(pid,h)
            json.dump(dict(property=pid,binary=b['name'],section=sec,choices=ch,key=key,detail=detail,count=cnt,tier=tier,confirmed=ok),open(rp,'w'),indent=1)
            if ok: viol.append((key,detail,rp))
            else: internal.append('not reproduced on replay: %s: %s'%(key,detail[:800]))
        cov=dict(states=0,transitions=0,traces_validated_against_impl=0,samples=[],executions=0,exhaustive=True,sections={},counters={})
        for b,r in allr:
            res=r.get('result')
            if not res: continue
            cov['states']+=res['states']; cov['transitions']+=res['transitions']; cov['traces_validated_against_impl']+=res['traces']; cov['executions']+=res['executions']
            if res['capped'] or not r['ok']: cov['exhaustive']=False
            s=cov['sections'].setdefault(b['name']+'/'+r['section'],dict(states=0,transitions=0,traces=0,executions=0,capped=False,_o=set(),_on=0))
            for k in ('states','transitions','traces','executions'): s[k]+=res[k]
            s['capped']|=res['capped']; s['_o'].update(res['outcomes']); s['_on']=max(s['_on'],res['noutcomes'])
            for k,v in res['counters'].items(): cov['counters'][k]=cov['counters'].get(k,0)+v
            if len(cov['samples'])<40: cov['samples']+=[r['section']+': '+x for x in res['samples'][:2]] if r['shard']==0 else []
        for s in cov['sections'].values():
            o=s.pop('_o'); on=s.pop('_on'); s['distinct_outcomes']=max(len(o),on)
        if not cov['samples']: cov['samples']=['(none recorded)']
        ev=dict(property=pid,tier=tier,seed=seed,level='model_checking',coverage=cov,assumptions=spec.get('assumptions',[])+checks.ASSUME,wall_s=round(time.time()-t0,2),violations=len(viol))
        json.dump(ev,open(VERIF+'/evidence/%s.json'%pid,'w'),indent=1)
        print('%s %s: states=%d transitions=%d traces=%d executions=%d exhaustive=%s build=%.1fs wall=%.1fs'%(pid,tier,cov['states'],cov['transitions'],cov['traces_validated_against_impl'],cov['executions'],cov['exhaustive'],tb,time.time()-t0))
        for k,s in sorted(cov['sections'].items()): print('  %-40s states=%d transitions=%d traces=%d outcomes=%d%s'%(k,s['states'],s['transitions'],s['traces'],s['distinct_outcomes'],' CAPPED' if s['capped'] else ''))
        for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s'%(pid,knownkeys[k]['what']))
        for key,detail,rp in viol:
            print('  %s: %s'%(key,detail[:350])); print('VIOLATION property=%s replay=%s'%(pid,rp)); rc=1
        if not viol and internal:
            print('INTERNAL ERROR:\n'+'\n'.join(internal)[:6000]); rc=2
        elif internal: print('note: '+'\n'.join(internal)[:1500])
    except BuildError as e:
        print('BUILD ERROR: %s'%e); rc=2
    finally:
        if os.environ.get('MC_KEEP'): print('kept',bdir)
        else: shutil.rmtree(bdir,ignore_errors=True)
        if os.path.isdir(CACHE):
            fs=sorted((os.path.join(CACHE,f) for f in os.listdir(CACHE)),key=lambda p:os.path.getmtime(p) if os.path.exists(p) else 0)
            for p in fs[:-600]:
                try: os.unlink(p)
                except OSError: pass
    return rc
def replay(path):
    r=json.load(open(path)); spec=checks.CHECKS[r['property']]; b=[x for x in spec['bins'] if x['name']==r['binary']][0]
    bdir=tempfile.mkdtemp(prefix='mc-replay-'); os.makedirs(CACHE,exist_ok=True)
    try:
        base=repo_hash()+tree_hash(HERE+'/inc')+tree_hash(HERE+'/shim')+hashlib.sha256(b''.join(open(p,'rb').read() for p in sorted(glob.glob(HERE+'/h/*.h')))).hexdigest()
        with cf.ThreadPoolExecutor(8) as pool: objs,san=build(b,bdir,base,pool)
        exe=link(b,objs,san,bdir); ra=['--replay',r['section'],','.join(map(str,r['choices']))] if r['choices'] else ['--only',r['section']]
        if r['tier']=='thorough': ra.append('--thorough')
        f,i=failures(run_exe(exe,ra,bdir+'/o',bdir))
        for x in f: print(x[0],':',x[1])
        return 1 if f else 0
    finally: shutil.rmtree(bdir,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
