"""mut.py OUT [file...]: mutation testing of the checks."""
import ast, json, os, re, shutil, subprocess, sys, threading, queue, random
MAP={'all_multipliers.py':['P01','P02','P15','P16','P23','P30','P31','P29','P32','P33'],'utilities/convert.py':['P13','P14','P23','P31','P32','P33'],'utilities/mpi_runner.py':['P14','P32','P33'],
'utilities/parallel.py':['P26','P16'],'utilities/value_lookup.py':['P03','P04','P05'],'terrain/terrain_mult.py':['P03','P22','P04','P29','P31','P32','P33'],
'shielding/shield_mult.py':['P05','P06','P07','P22','P29','P31','P32','P33'],'topographic/topo_mult.py':['P09','P10','P28','P31','P32','P33'],'topographic/mh.py':['P08','P09'],
'topographic/findpeaks.py':['P08'],'topographic/multiplier_calc.py':['P08'],'topographic/make_path.py':['P09'],'utilities/rasters.py':['P32'],'utilities/nctools.py':['P11','P12','P32','P33'],
'utilities/config.py':['P19'],'utilities/files.py':['P25','P30','P31','P32'],'utilities/meta.py':['P26'],'utilities/blrb.py':['P24','P18'],
'utilities/get_pixel_size_grid.py':['P18'],'utilities/vincenty.py':['P17','P18'],'utilities/shapefiles.py':['P27','P20','P32','P33'],'pre_process.py':['P20','P21','P31','P32','P33'],'rasterize.py':['P21','P31']}
ROOT='/tmp/wmseed/mut'
CMP={ast.Lt:['<='],ast.LtE:['<'],ast.Gt:['>='],ast.GtE:['>'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
BIN={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['/'],ast.Div:['*'],ast.FloorDiv:['/'],ast.Mod:['*'],ast.Pow:['*'],ast.BitAnd:['|']}
def mutants(path):
    src=open(path).read(); lines=src.splitlines(True)
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    b=src.encode()
    tree=ast.parse(src)
    out=[]
    def pos(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    def rep(n,text,kind,span=None):
        s,e=span or pos(n)
        new=b[:s]+text.encode()+b[e:]
        out.append((kind,n.lineno,b[s:e].decode()[:60],text[:60],new.decode()))
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): skip.update(map(id,ast.walk(n)))
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call):
            s=ast.unparse(n.value.func)
            if s.startswith(('log.','logger.','LOGGER.','logging.','print','args.add','parser.add')): skip.update(map(id,ast.walk(n)))
        if isinstance(n,ast.If) and "__main__" in ast.unparse(n.test): skip.update(map(id,ast.walk(n)))
    def between(l,r,ops):
        s=pos(l)[1]; e=pos(r)[0]; return s,e
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            s,e=between(n.left,n.comparators[0],None)
            for t in CMP[type(n.ops[0])]:
                seg=b[s:e].decode()
                m=re.search(r'<=|>=|==|!=|<|>|is not|not in|\bis\b|\bin\b',seg)
                if m: rep(n,seg[:m.start()]+t+seg[m.end():],'cmp',(s,e))
        elif isinstance(n,ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left,ast.Constant) and isinstance(n.left.value,str): continue
            s,e=between(n.left,n.right,None)
            seg=b[s:e].decode()
            m=re.search(r'\*\*|//|[-+*/%&]',seg)
            for t in BIN[type(n.op)]:
                if m: rep(n,seg[:m.start()]+t+seg[m.end():],'bin',(s,e))
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool):
            v=n.value
            rep(n,repr(v+1),'const')
            if v not in (0,1): rep(n,repr(v*1.01 if isinstance(v,float) else v-1),'const')
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            rep(n,repr(not n.value),'bool')
        elif isinstance(n,ast.BoolOp):
            s,e=between(n.values[0],n.values[1],None); seg=b[s:e].decode()
            t=seg.replace('and','or') if isinstance(n.op,ast.And) else seg.replace('or','and')
            rep(n,t,'boolop',(s,e))
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub)) and not isinstance(n.operand,ast.Constant):
            rep(n,'('+b[slice(*pos(n.operand))].decode()+')','unary')
        elif isinstance(n,ast.Call) and isinstance(n.func,(ast.Name,ast.Attribute)):
            name=n.func.id if isinstance(n.func,ast.Name) else n.func.attr
            sw={'min':'max','max':'min','floor':'ceil','ceil':'floor','minimum':'maximum','maximum':'minimum','around':'floor','nanmin':'nanmax','nanmax':'nanmin','flipud':'fliplr','fliplr':'flipud','round':'int','mean':'max','zeros':'ones','zeros_like':'ones_like','ones_like':'zeros_like','abs':'float','sin':'cos','cos':'sin'}
            if name in sw:
                s,e=pos(n.func); seg=b[s:e].decode()
                if name=='around' : t='np.floor'
                else: t=seg[:len(seg)-len(name)]+sw[name]
                rep(n,t,'call',(s,e))
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr,ast.Return,ast.Raise,ast.Break)) and n.lineno:
            if isinstance(n,ast.Assign) and all(isinstance(t,ast.Name) for t in n.targets): continue
            rep(n,'pass','delete')
        elif isinstance(n,ast.If):
            rep(n.test,'True','if'); rep(n.test,'False','if')
    res=[]
    for m in out:
        try: compile(m[4],path,'exec')
        except SyntaxError: continue
        if m[4]!=src: res.append(m)
    return res
def env_for(copy):
    return dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',
      PYTHONPATH=':'.join(copy+s for s in ['','/utilities','/topographic','/tests','/tests/test_topographic']))
def worker(k,q,out,lock):
    copy=os.path.join(ROOT,'w%d'%k)
    shutil.rmtree(copy,ignore_errors=True)
    shutil.copytree('/repo',copy,symlinks=True)
    ver=os.path.join(ROOT,'v%d'%k)
    shutil.rmtree(ver,ignore_errors=True)
    shutil.copytree('/verif',ver,ignore=shutil.ignore_patterns('.git','seeded','replays'))
    while True:
        try: fn,m=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(copy,fn); src=open(os.path.join('/repo',fn)).read()
        open(p,'w').write(m[4])
        rec={'file':fn,'kind':m[0],'line':m[1],'old':m[2],'new':m[3]}
        try:
            try:
                r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','--deselect','tests/test_clip_dataset.py','--deselect','tests/test_pep8.py','-p','pytest_timeout','-p','no:cacheprovider','--timeout=60','tests'],cwd=copy,env=env_for(copy),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=120)
                tests=r.returncode
            except subprocess.TimeoutExpired: tests=99
            subprocess.run('git checkout -q -- tests',shell=True,cwd=copy)
            rec['tests']='killed' if tests else 'pass'
            if not tests:
                rec['check']='MISSED'; rec['why']=[]
                for pid in MAP[fn]:
                    try:
                        c=subprocess.run(['/opt/venv/bin/python','harness/run_check.py',pid,'--shards','2'],cwd=ver,env=dict(os.environ,VERIF_REPO=copy,VERIF_SEED='1',VERIF_SHRINK_SECONDS='0'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=600)
                    except subprocess.TimeoutExpired:
                        rec['why'].append(pid+' timeout'); continue
                    if c.returncode==1 and 'VIOLATION' in c.stdout: rec['check']=pid; break
                    if c.returncode not in (0,1): rec['why'].append(pid+' rc %d '%c.returncode+c.stdout[-300:])
        finally:
            open(p,'w').write(src)
        with lock:
            out.write(json.dumps(rec)+'\n'); out.flush()
def main():
    outp=sys.argv[1]; files=sys.argv[2:] or list(MAP)
    n=int(os.environ.get('MAXPER','60'))
    os.makedirs(ROOT,exist_ok=True)
    q=queue.Queue(); rng=random.Random(int(os.environ.get('MSEED','1')))
    allm=[]
    for fn in files:
        ms=mutants(os.path.join('/repo',fn)); rng.shuffle(ms)
        print(fn,len(ms)); allm+= [(fn,m) for m in ms[:n]]
    if os.environ.get('DRY'): return
    rng.shuffle(allm)
    for x in allm: q.put(x)
    out=open(outp,'a'); lock=threading.Lock()
    ts=[threading.Thread(target=worker,args=(k,q,out,lock)) for k in range(4)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
