"""Systematic mutants of the library and the checks that notice them.

    python tools/mutants.py [--files lab,math] [--scale 0.06] [--redo out.jsonl] --out out.jsonl

Each mutant is one changed operator, constant, branch, call or statement.  A forked process
imports the mutated copy (under /tmp/mut) and runs all checks without shrinking until the
first one notices; ``"res": null`` marks survivors."""

import ast, copy, sys, os, json
SRC="/repo/src/hyperelastic"
def mutants(tree):
    "yield (lineno, desc, apply) where apply mutates a deep copy located by index"
    nodes=list(ast.walk(tree))
    # docstring constants
    doc=set()
    for n in nodes:
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)):
            if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
                doc.add(id(n.body[0].value)); doc.add(id(n.body[0]))
    out=[]
    for i,n in enumerate(nodes):
        if id(n) in doc: continue
        def add(desc,fn,n=n,i=i): out.append((getattr(n,'lineno',0),desc,i,fn))
        if isinstance(n,ast.Constant):
            v=n.value
            if isinstance(v,bool):
                add(f"{v}->{not v}",lambda m,v=v:setattr(m,'value',not v))
            elif isinstance(v,(int,float)):
                add(f"{v}->{v+1}",lambda m,v=v:setattr(m,'value',v+1))
                if v!=0: add(f"{v}->0",lambda m,v=v:setattr(m,'value',0))
                if v>1: add(f"{v}->{v-1}",lambda m,v=v:setattr(m,'value',v-1))
                if isinstance(v,float) or v>0: add(f"{v}->{v*1.001}",lambda m,v=v:setattr(m,'value',v*1.001)) if isinstance(v,float) else None
            elif v is None:
                add("None->0",lambda m:setattr(m,'value',0))
            elif isinstance(v,str) and len(v)<60:
                add(f"str {v!r}+x",lambda m,v=v:setattr(m,'value',v+"x"))
        elif isinstance(n,ast.BinOp):
            M={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.Pow:[ast.Mult],ast.MatMult:[ast.Mult]}
            for k in M.get(type(n.op),[]):
                add(f"{type(n.op).__name__}->{k.__name__}",lambda m,k=k:setattr(m,'op',k()))
            add("left only","L"); add("right only","R")
        elif isinstance(n,ast.AugAssign):
            M={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult}
            if type(n.op) in M: add("augop",lambda m,k=M[type(n.op)]:setattr(m,'op',k()))
        elif isinstance(n,ast.UnaryOp):
            add("drop unary","O")
        elif isinstance(n,ast.Compare):
            M={ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
            add(f"cmp {type(n.ops[0]).__name__}",lambda m,k=M[type(n.ops[0])]:m.ops.__setitem__(0,k()))
        elif isinstance(n,ast.BoolOp):
            add("boolop",lambda m:setattr(m,'op',ast.Or() if isinstance(m.op,ast.And) else ast.And()))
        elif isinstance(n,(ast.If,ast.IfExp)):
            add("if True",lambda m:setattr(m,'test',ast.Constant(True)))
            add("if False",lambda m:setattr(m,'test',ast.Constant(False)))
        elif isinstance(n,ast.Call):
            for k in range(len(n.keywords)):
                add(f"drop kw {n.keywords[k].arg}",lambda m,k=k:m.keywords.pop(k))
            if len(n.args)>1: add("swap args",lambda m:m.args.__setitem__(slice(0,2),[m.args[1],m.args[0]]))
            if isinstance(n.func,ast.Attribute):
                S=dict(ones_like='zeros_like',zeros_like='ones_like',max='min',min='max',asarray='array',array='asarray',copy='view',sum='prod',prod='sum',concatenate='hstack',sqrt='square',log='exp',all='any',any='all',ones='zeros',zeros='ones')
                if n.func.attr in S: add(f"{n.func.attr}->{S[n.func.attr]}",lambda m,a=S[n.func.attr]:setattr(m.func,'attr',a))
            if len(n.args)>=1: add("call->arg0","A")
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr)) :
            pass
        elif isinstance(n,(ast.Tuple,ast.List)) and isinstance(getattr(n,'ctx',None),ast.Load) and 2<=len(n.elts)<=6:
            add("swap elts 0,1",lambda m:m.elts.__setitem__(slice(0,2),[m.elts[1],m.elts[0]]))
            add("swap elts -1,-2",lambda m:m.elts.__setitem__(slice(-2,None),[m.elts[-1],m.elts[-2]]))
        if isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr)) and id(n) not in doc:
            add("delete stmt","D")
        if isinstance(n,ast.Slice): 
            pass
    return out
class Repl(ast.NodeTransformer):
    def __init__(self,target,new): self.t,self.n=target,new
    def visit(self,node):
        if node is self.t: return self.n
        return self.generic_visit(node)
def make(src,idx,fn):
    t=ast.parse(src); m=list(ast.walk(t))[idx]
    if callable(fn): fn(m)
    else:
        new={"L":lambda:m.left,"R":lambda:m.right,"O":lambda:m.operand,"A":lambda:m.args[0],"D":lambda:ast.Pass()}[fn]()
        if fn=="D": ast.copy_location(new,m)
        t=Repl(m,new).visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t)
def allm():
    res=[]
    for d,_,fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith(".py") or f in("__init__.py","__about__.py"): continue
            p=os.path.join(d,f); rel=os.path.relpath(p,SRC); src=open(p).read()
            base=ast.unparse(ast.parse(src))
            seen={base}
            for line,desc,idx,fn in mutants(ast.parse(src)):
                try: new=make(src,idx,fn)
                except Exception as e: continue
                if new in seen: continue
                seen.add(new)
                res.append((rel,line,desc,new))
    return res
import os, sys, json, time, shutil, signal, random, importlib
V="/tmp/mut/verif"
if not os.path.isdir(V):
    import subprocess
    subprocess.run(f"mkdir -p {V} && cp -a /verif/harness /verif/.deps {V}/",shell=True,check=True)
sys.path.insert(0,V); sys.dont_write_bytecode=True
os.environ.update(MPLBACKEND="Agg",OMP_NUM_THREADS="1",OPENBLAS_NUM_THREADS="1",MKL_NUM_THREADS="1")
from harness import boot
boot.deps()
import numpy, matplotlib.pyplot, scipy.optimize, scipy.sparse, hypothesis, warnings
try:
    import torch; torch.set_num_threads(1)
except Exception as e: print(e)
import felupe
# no shrinking
import hypothesis
from hypothesis import Phase
_s=hypothesis.settings
class S(_s):
    pass
def settings(*a,**k):
    k["phases"]=(Phase.generate,)
    return _s(*a,**k)
hypothesis.settings=settings
ALL=[f"C{i:02d}" for i in range(1,25)]
PRI={"math":["C11","C10","C12"],"frameworks/_inv":["C01","C02","C24","C08"],"frameworks/_str":["C01","C02","C24","C08"],"frameworks/_gen":["C06","C01","C02"],"models/inv":["C13","C14","C01","C02","C16"],"models/str":["C13","C15","C01","C02"],"models/gen":["C15","C01"],"spaces":["C01","C02","C05","C04","C07"],"lab/_opt":["C20","C21","C22"],"lab/_cur":["C20","C21"],"lab/_plot":["C22"],"lab/_exp":["C19"],"lab/_load":["C17","C18"],"lab/_sim":["C18"]}
def order(rel):
    o=[]
    for k,v in PRI.items():
        if rel.startswith(k): o+=v
    return o+[c for c in ALL if c not in o]
def child(rel,new,scale,wid,props,only):
    top=f"/tmp/mut/w{wid}"; shutil.rmtree(top,ignore_errors=True)
    shutil.copytree("/repo/src/hyperelastic",top+"/src/hyperelastic",ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{top}/src/hyperelastic/{rel}","w").write(new)
    boot.REPO=top
    boot.repo()
    from harness import core
    for pid in props:
        m=importlib.import_module("harness.props."+pid.lower())
        for k,sub in enumerate(m.SUBS):
            n=max(int(sub.quick*scale),12)
            r=core.run_sub(sub,n,100000+k,time.monotonic()+600)
            if r["failure"]: return f"{pid}/{sub.name}: {str(r['failure'][-1])[:200]}"
    return None
def main():
    import argparse
    p=argparse.ArgumentParser(); p.add_argument("--files",default=""); p.add_argument("--scale",type=float,default=0.06); p.add_argument("--out",default="out.jsonl"); p.add_argument("--redo",default=""); p.add_argument("--j",type=int,default=7); p.add_argument("--timeout",type=int,default=400)
    p.add_argument("--sample",type=float,default=1.0)
    a=p.parse_args()
    ms=allm()
    ids=[f"{r[0]}:{r[1]}:{r[2]}:{i}" for i,r in enumerate(ms)]
    todo=list(range(len(ms)))
    if a.files: todo=[i for i in todo if any(ms[i][0].startswith(f) for f in a.files.split(","))]
    if a.redo:
        want={json.loads(l)["id"] for l in open(a.redo) if json.loads(l)["res"] in (None,"TIMEOUT")}
        todo=[i for i in todo if ids[i] in want]
    random.Random(5).shuffle(todo)
    todo=todo[:int(len(todo)*a.sample)]
    running={}; free=list(range(a.j)); out=open(a.out,"a"); done=0; t0=time.time()
    stats={"killed":0,"alive":0,"err":0}
    while todo or running:
        while todo and free:
            i=todo.pop(); w=free.pop(); rel,line,desc,new=ms[i]
            f=f"/tmp/mut/res{w}"; 
            if os.path.exists(f): os.remove(f)
            pid=os.fork()
            if pid==0:
                os.setpgid(0,0)
                devnull=os.open("/dev/null",os.O_WRONLY); os.dup2(devnull,1); os.dup2(devnull,2)
                try:
                    res=child(rel,new,a.scale,w,order(rel),None)
                except BaseException as e:
                    import traceback
                    res="EXC "+repr(e)[:200]+" "+traceback.format_exc()[-300:]
                json.dump(res,open(f,"w")); os._exit(0)
            running[pid]=(i,w,time.time())
        time.sleep(0.02)
        for pid in list(running):
            i,w,t=running[pid]
            q,_=os.waitpid(pid,os.WNOHANG)
            res="?"
            if q==0:
                if time.time()-t<a.timeout: continue
                os.killpg(pid,signal.SIGKILL); os.waitpid(pid,0); res="TIMEOUT"
            else:
                try: res=json.load(open(f"/tmp/mut/res{w}"))
                except Exception: res="CRASH"
            rel,line,desc,new=ms[i]
            out.write(json.dumps(dict(id=ids[i],res=res))+"\n"); out.flush()
            stats["alive" if res is None else "err" if res.startswith(("EXC","CRASH","TIMEOUT")) else "killed"]+=1
            done+=1; del running[pid]; free.append(w)
            if done%50==0: print(done,len(todo),stats,int(time.time()-t0),flush=True)
    print("END",stats,flush=True)
main()
