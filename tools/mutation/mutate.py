"""list/apply mutations: mutate.py FILE -> json list of (lineno, desc, newsource)"""
import ast, sys, json, random
def cands(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def pos(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    def seg(n): i,j=pos(n); return b[i:j].decode()
    out = []
    def rep(n, new, desc):
        i, j = pos(n); out.append((n.lineno, desc+": "+seg(n).replace("\n"," ")[:70]+" -> "+new.replace("\n"," ")[:70], (i, j, new)))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    infn = set(); ann=set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for s in n.body:
                for m in ast.walk(s): infn.add(id(m))
            for d in n.args.defaults+[k for k in n.args.kw_defaults if k]:
                infn.add(id(d))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation): ann.add(id(m))
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Assert):
            for m in ast.walk(n): ann.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for m in ast.walk(n.returns): ann.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__","__str__"):
            for m in ast.walk(n): ann.add(id(m))
    for n in ast.walk(tree):
        if id(n) not in infn or id(n) in doc or id(n) in ann: continue
        if isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            m = {ast.Add:"-", ast.Sub:"+", ast.Mult:"/", ast.Div:"*", ast.Pow:"*", ast.FloorDiv:"/"}.get(type(n.op))
            if isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and isinstance(n.left.value,str): continue
            if m: rep(n, "(%s) %s (%s)"%(l,m,r), "op")
            if isinstance(n.op, ast.MatMult): rep(n, "(%s) @ (%s)"%(r,l), "swap")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op,(ast.USub,ast.Not)): rep(n, "("+seg(n.operand)+")", "unary")
        elif isinstance(n, ast.Compare) and len(n.ops)==1:
            m={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"==",ast.Is:"is not",ast.IsNot:"is"}.get(type(n.ops[0]))
            if m: rep(n,"%s %s %s"%(seg(n.left),m,seg(n.comparators[0])),"cmp")
        elif isinstance(n, ast.BoolOp):
            m=" or " if isinstance(n.op,ast.And) else " and "
            rep(n,m.join("(%s)"%seg(v) for v in n.values),"bool")
            for k in range(len(n.values)):
                rep(n,(" and " if isinstance(n.op,ast.And) else " or ").join("(%s)"%seg(v) for i,v in enumerate(n.values) if i!=k),"dropcond")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value,bool): rep(n,str(not n.value),"const")
            elif isinstance(n.value,int): rep(n,str(n.value+1),"const")
            elif isinstance(n.value,float): rep(n,repr(n.value*2 if n.value else 1.0),"const")
        elif isinstance(n, ast.Attribute) and n.attr in("T",): rep(n,seg(n.value),"dropT")
        elif isinstance(n, ast.Attribute) and n.attr in ("any","all","min","max","amin","amax","A","B","left","right","minimum","maximum","mean","cov","std","var","previous_index","start","stop","t","sum","prod"):
            m={"any":"all","all":"any","min":"max","max":"min","amin":"amax","amax":"amin","A":"B","B":"A","std":"var","var":"std","sum":"prod","prod":"sum","minimum":"maximum","maximum":"minimum"}.get(n.attr)
            if m: rep(n,seg(n.value)+"."+m,"attr")
        elif isinstance(n, ast.Call):
            f=n.func
            if isinstance(f,ast.Attribute) and f.attr in("copy","transpose","astype","reshape","squeeze") : rep(n,seg(f.value),"dropcall")
            if isinstance(f,ast.Attribute) and f.attr in ("abs","sqrt","log","exp","sort","atleast_1d","asarray","array","broadcast_to","unique") and len(n.args)>=1: rep(n,"("+seg(n.args[0])+")","unwrap")
            if isinstance(f,ast.Name) and f.id in ("min","max"): rep(f,"max" if f.id=="min" else "min","minmax")
            if isinstance(f,ast.Name) and f.id in ("abs","float","int","list","tuple","sorted") and n.args: rep(n,"("+seg(n.args[0])+")","unwrap")
            if len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args) :
                a=n.args
                rep2=seg(a[0]),seg(a[1])
                if rep2[0]!=rep2[1] and not (isinstance(f,ast.Name) and f.id in("isinstance","getattr","hasattr","super","zip","issubclass")):
                    i,_=pos(a[0]); _,j=pos(a[1]); out.append((n.lineno,"argswap: "+seg(n).replace("\n"," ")[:100],(i,j,rep2[1]+", "+rep2[0])))
            for k in n.keywords:
                if k.arg and isinstance(k.value,(ast.Name,ast.Attribute,ast.Constant)) :
                    # drop keyword
                    i,j=pos(k.value)
                    st=i-len(k.arg.encode())-1
                    if b[st:i].decode()==k.arg+"=":
                        e=j
                        t=b[e:].decode()
                        sp=len(t)-len(t.lstrip())
                        if t.lstrip().startswith(","): e=j+sp+1
                        out.append((k.value.lineno,"dropkw: "+k.arg+" in "+seg(n).replace("\n"," ")[:80],(st,e,"")))
        elif isinstance(n,(ast.If,ast.While)):
            rep(n.test,"not (%s)"%seg(n.test),"negif")
        elif isinstance(n,ast.IfExp):
            rep(n,"(%s) if (%s) else (%s)"%(seg(n.orelse),seg(n.test),seg(n.body)),"swapif")
        elif isinstance(n,ast.AugAssign):
            rep(n,"pass","del")
            m={ast.Add:"-=",ast.Sub:"+=",ast.Mult:"/=",ast.Div:"*="}.get(type(n.op))
            if m: rep(n,"%s %s %s"%(seg(n.target),m,seg(n.value)),"aug")
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): rep(n,"pass","del")
        elif isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice): 
            s=n.slice
            if s.lower is not None and s.upper is None and s.step is None: rep(n,seg(n.value)+"[:]","slice")
            if s.upper is not None and s.lower is None and s.step is None: rep(n,seg(n.value)+"[:]","slice")
        elif isinstance(n,ast.Return) and isinstance(n.value,ast.Tuple) and len(n.value.elts)==2 : pass
        elif isinstance(n,ast.Continue): rep(n,"break","cont")
        elif isinstance(n,ast.Break): rep(n,"continue","brk")
    res=[]
    for ln,desc,(i,j,new) in out:
        m=(b[:i]+new.encode()+b[j:]).decode()
        try: ast.parse(m)
        except SyntaxError: continue
        res.append((ln,desc,m))
    return res
if __name__=="__main__":
    for ln,d,_ in cands(open(sys.argv[1]).read()): print(ln,d)
