#!/usr/bin/env python3
"""Developer aid: pretty-print function specs from a `verus --log vir` dump (vstd source is not installed)."""
import sys,re
def parse(s):
    toks=re.findall(r'"(?:[^"\\]|\\.)*"|[()]|[^\s()"]+',s); st=[[]]
    for t in toks:
        if t=='(': st.append([])
        elif t==')':
            x=st.pop(); st[-1].append(x)
        else: st[-1].append(t)
    return st[0]
def kw(l):
    d={};i=0
    while i<len(l):
        if isinstance(l[i],str) and l[i].startswith(':') and i+1<len(l): d[l[i]]=l[i+1]; i+=2
        else: i+=1
    return d
def name(p): return p.split('::',2)[-1] if p.count('::')>2 else p
def short(p): return '::'.join(p.split('::')[-2:])
def fun(x):
    if isinstance(x,list) and x and x[0]=='Fun': return short(kw(x)[':path'])
    return '?'
def ex(x):
    if isinstance(x,str): return x
    if not x: return '()'
    h=x[0]
    if h in('>','@@','@'):
        return ex(x[1:]) if not isinstance(x[1],list) else ex(x[1])
    if h=='Call':
        d=kw(x); t=d[':target']; n='?'
        if t[1]=='Fun':
            fs=[y for y in t if isinstance(y,list) and y and y[0]=='Fun']; n=fun(fs[0]) if fs else '?'
        elif t[1]=='FnSpec': n='FNSPEC '+(ex(t[2]) if len(t)>2 else '')
        elif t[1]=='BuiltinSpecFun':
            n='B:'+(t[2][0] if isinstance(t[2],list) else str(t[2]))+(str(t[2][1]) if isinstance(t[2],list) and len(t[2])>1 and isinstance(t[2][1],str) else '')
        a=d.get(':args',[])
        return n+'('+', '.join(ex(y) for y in a)+')'
    if h=='ReadPlace': return ex(x[1])
    if h=='Place':
        if x[1]=='Local': return var(x[2])
        if x[1]=='Field': return ex(x[3])+'.'+kw(x[2])[':field'].strip('"')
        if x[1]=='Temporary': return ex(x[2])
        return 'Place'+str(x[1])+'('+','.join(ex(y) for y in x[2:])+')'
    if h=='VarIdent': return var(x)
    if h in('Var','VarLoc','VarAt'): return var(x[1])+('' if h!='VarAt' else '@pre')
    if h=='Unary': return un(x[1])+'('+ex(x[2])+')' if un(x[1]) else ex(x[2])
    if h=='UnaryOpr':
        o=x[1]
        if o[1]=='Box' or o[1]=='Unbox' or o[1]=='HasType': return ex(x[2])
        if o[1]=='IsVariant': return ex(x[2])+' is '+kw(o).get(':variant','?')
        if o[1]=='Field': return ex(x[2])+'.'+str(o)
        return '/'.join(map(str,[y for y in o[1:3] if isinstance(y,str)]))+'('+ex(x[2])+')'
    if h in('Binary','Logical','BinaryOpr'):
        o=x[1]; op=' '.join(y if isinstance(y,str) else str(y[0])+(str(y[1]) if len(y)>1 and isinstance(y[1],str) else '') for y in o[1:3])
        return '('+ex(x[2])+' '+{'Eq Spec':'==','And':'&&','Implies':'==>','Or':'||'}.get(op,op)+' '+ex(x[3])+')'
    if h=='Block':
        st=x[1]; return ('{'+'; '.join(ex(y) for y in st)+'} ' if st else '')+(ex(x[2]) if len(x)>2 else '')
    if h=='Const': return str(x[1][2] if len(x[1])>2 else x[1]) if isinstance(x[1],list) else str(x[1])
    if h=='Quant': return x[1][1]+'|'+','.join(var(kwf(b)) for b in x[2])+'| '+ex(x[3])
    if h=='Closure': return 'clo|'+','.join(var(kwf(b)) for b in x[1])+'| '+ex(x[2])
    if h=='If': return 'if '+ex(x[1])+' {'+ex(x[2])+'} else {'+(ex(x[3]) if len(x)>3 else '')+'}'
    if h=='Match': return 'match '+ex(x[1])+' {'+', '.join('%s=>%s'%(pat(kw(a).get(':pattern')),ex(kw(a).get(':body'))) for a in (x[2] if isinstance(x[2],list) else []))+'}'
    if h=='Ctor':
        d=x; n=x[2] if len(x)>2 else ''
        return 'Ctor '+str(n)+'('+','.join(ex(kw(b).get(':a',b[-1])) for b in (x[3] if len(x)>3 and isinstance(x[3],list) else []) if isinstance(b,list))+')'
    if h in('WithTriggers',): return ex(kw(x).get(':body',x[-1]))
    if h=='Some' : return 'Some('+ex(x[1])+')'
    return h+'['+' '.join(ex(y) if isinstance(y,list) else str(y) for y in x[1:])+']'
def kwf(b):
    d=kw(b); return d.get(':name',b[1] if len(b)>1 else b)
def pat(p):
    if p is None: return '_'
    return flat(p)
def flat(x):
    if isinstance(x,str): return x
    if x and x[0]=='VarIdent': return var(x)
    return '('+' '.join(flat(y) for y in x)+')'
def un(o):
    if isinstance(o,list) and len(o)>1:
        n=o[1]
        if n in('CoerceMode','MustBeFinalized','Trigger','Clip','UnaryOp','MustBeElaborated') : return ''
        return n if isinstance(n,str) else str(n[0])
    return str(o)
def var(v):
    if isinstance(v,list) and v and v[0]=='VarIdent': return v[1].strip('"')
    return str(v)
s=open(sys.argv[1]).read(); rx=re.compile(sys.argv[2])
# split top-level functions
for m in re.finditer(r'^\(Function\b.*?(?=^\(|\Z)',s,re.M|re.S):
    t=m.group(0)
    mm=re.search(r'\(Fun\s+:path\s+([^\s)]+)',t)
    if not mm or not rx.search(mm.group(1)): continue
    try:
        f=parse(t)[0]; d=kw(f)
        print('FN',mm.group(1),d.get(':mode'),'(',', '.join(var(kw(p)[':name']) for p in d.get(':params',[])),')->',var(kw(d[':ret'])[':name']))
        for k in(':require',':ensure',':body'):
            v=d.get(k)
            if not v or v=='None': continue
            if k==':body': print('   body',ex(v)[:1500])
            else:
                for e in v: print('   ',k,ex(e)[:1500] if isinstance(e,list) else e)
    except Exception as e: print('ERR',mm.group(1),repr(e))
