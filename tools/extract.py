#!/usr/bin/env python3
"""Mechanical extraction of Rust functions from /repo/src into a Verus unit.

A unit template (contracts/<unit>.vrs) is Verus text in which directives
`//@fn FILE PATH ... //@end` and `//@item FILE KIND NAME` are replaced by the
current source text of that function/item, rewritten only by the rules listed in
RULES below plus the per-function `//@subst` rules of the template (each use is
recorded and ends up in the evidence file).
"""
import re, os, sys, json

RULES = [
 "comments, doc comments and attributes are dropped",
 "tracing::*!(..) statements are dropped",
 "`pub`/`pub(crate)` visibility is normalised to `pub`",
 "the return value is given a name",
 "`async`/`.await` are dropped (sequential semantics of one task)",
 "error message text: format!(..), \"..\".into(), \"..\".to_string(), \"..\".to_owned() become the opaque vmsg()",
 "turbofish type hints naming nom::error::Error<_> are dropped",
 "assert!(e) becomes `if !(e) { vpanic() }` with `vpanic` requiring false, assert_eq!(a, b) likewise; .expect(\"..\") becomes .unwrap()",
 "`let P = loop { .. break E; .. }` becomes `let brkN; loop { .. brkN = E; break; .. } let P = brkN`",
 "byte-string literals are replaced by a constant with the same bytes",
 "panic!/unreachable!/unimplemented! become a call that requires false",
 "a closure parameter `_` is given the name `_u`",
 "a parameter `mut self` becomes `self` and a local copy",
 "a closure `|(a, b)| e` becomes `|vt| { let (a, b) = vt; e }`",
 "functions nested in a function are hoisted next to it",
 "FILE#MACRO#ARG: the single arm of a macro_rules macro is instantiated textually for an invocation that occurs in the file",
 "crate::error::X becomes X, crate::Result<T> becomes CResult<T> (= Result<T, Error>); matches!(e, p) becomes the match it stands for",
 "a match on string literals with a final catch-all becomes the chain of comparisons it stands for",
 "slice methods without a Verus contract (starts_with, ..) are renamed to verified implementations of the same contract (METHODS)",
]
METHODS={"to_vec":"v_to_vec","starts_with":"v_starts_with","split_at_checked":"v_split_at_checked","ok_or_else":"v_ok_or_else","is_some_and":"v_is_some_and"}

class Lost(Exception): pass

# ---------------------------------------------------------------- lexer
class Tok:
    __slots__=("k","s","a","b")
    def __init__(s,k,t,a,b): s.k,s.s,s.a,s.b=k,t,a,b
    def __repr__(s): return f"{s.k}:{s.s!r}"

_punct3=["=~=","==>","===","<<=",">>=","...","..=",]
_punct2=["::","->","=>","==","!=","<=",">=","&&","||","+=","-=","*=","/=","%=","^=","&=","|=","<<","..",]
def lex(src):
    i,n=0,len(src); out=[]
    while i<n:
        c=src[i]
        if c.isspace(): i+=1; continue
        if src.startswith("//",i):
            j=src.find("\n",i); j=n if j<0 else j
            i=j; continue
        if src.startswith("/*",i):
            d=1;j=i+2
            while d and j<n:
                if src.startswith("/*",j): d+=1;j+=2
                elif src.startswith("*/",j): d-=1;j+=2
                else: j+=1
            i=j; continue
        m=re.compile(r'(b|c)?r(#*)"').match(src,i)
        if m:
            e='"'+m.group(2); j=src.index(e,m.end())+len(e)
            out.append(Tok("bstr" if m.group(1)=="b" else "str",src[i:j],i,j)); i=j; continue
        if c=='"' or (c in "bc" and src.startswith('"',i+1)):
            j=i+(1 if c=='"' else 2)
            while src[j]!='"':
                j+=2 if src[j]=="\\" else 1
            j+=1
            out.append(Tok("bstr" if c=='b' else "str",src[i:j],i,j)); i=j; continue
        if c=="'" or (c=='b' and src.startswith("'",i+1)):
            s=i+(0 if c=="'" else 1)
            m=re.compile(r"'(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'").match(src,s)
            if m:
                out.append(Tok("byte" if c=='b' else "char",src[i:m.end()],i,m.end())); i=m.end(); continue
            m=re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src,s)
            out.append(Tok("life",m.group(0),i,m.end())); i=m.end(); continue
        m=re.compile(r"[A-Za-z_][A-Za-z0-9_]*").match(src,i)
        if m: out.append(Tok("id",m.group(0),i,m.end())); i=m.end(); continue
        m=re.compile(r"[0-9][0-9a-zA-Z_]*(\.[0-9][0-9a-zA-Z_]*)?").match(src,i)
        if m: out.append(Tok("num",m.group(0),i,m.end())); i=m.end(); continue
        for p in _punct3+_punct2:
            if src.startswith(p,i): out.append(Tok("p",p,i,i+len(p))); i+=len(p); break
        else:
            out.append(Tok("p",c,i,i+1)); i+=1
    return out

OPEN={"(":")","[":"]","{":"}"}; CLOSE=set(")]}")
def match(toks,i):
    """index of the token closing toks[i]"""
    d=0
    for j in range(i,len(toks)):
        s=toks[j].s if toks[j].k=="p" else ""
        if s in OPEN: d+=1
        elif s in CLOSE:
            d-=1
            if d==0: return j
    raise Lost("unbalanced")

def is_p(t,s): return t.k=="p" and t.s==s
def is_id(t,s): return t.k=="id" and t.s==s

# ---------------------------------------------------------------- item index
class Item:
    def __init__(s,kind,name,cont,a,b,toks,body=None): s.kind,s.name,s.cont,s.a,s.b,s.toks,s.body=kind,name,cont,a,b,toks,body

def norm(ts): return " ".join(t.s for t in ts)

def index(toks,lo,hi,cont,out):
    i=lo; attr_test=False; start=None
    while i<hi:
        t=toks[i]
        if is_p(t,"#") and i+1<hi and (is_p(toks[i+1],"[") or is_p(toks[i+1],"!")):
            j=match(toks,i+1 if is_p(toks[i+1],"[") else i+2)
            txt=norm(toks[i:j+1])
            if start is None: start=i
            if re.search(r"cfg \( (test|all \( test)",txt) or txt=="# [ test ]": attr_test=True
            i=j+1; continue
        if start is None: start=i
        if t.k=="id" and t.s in("pub","async","unsafe","default","extern"):
            i+=1
            if t.s=="pub" and is_p(toks[i],"("): i=match(toks,i)+1
            continue
        if is_id(t,"const") and i+1<hi and is_id(toks[i+1],"fn"): i+=1; continue
        if t.k=="id" and t.s in("mod","impl","trait"):
            j=i
            while not (is_p(toks[j],"{") or is_p(toks[j],";")): j+=1
            if is_p(toks[j],";"): i=j+1
            else:
                e=match(toks,j)
                if not attr_test:
                    hdr=norm(toks[i:j])
                    if t.s=="mod": index(toks,j+1,e,cont,out)
                    else:
                        out.append(Item(t.s,hdr,cont,start,e+1,toks,(j,e)))
                        index(toks,j+1,e,hdr,out)
                i=e+1
            attr_test=False; start=None; continue
        if is_id(t,"fn"):
            name=toks[i+1].s; j=i+2
            d=0
            while True:
                s=toks[j].s if toks[j].k=="p" else ""
                if s in "([" and s: d+=1
                elif s in ")]" and s: d-=1
                elif d==0 and s in("{",";"): break
                j+=1
            if is_p(toks[j],";"): e=j
            else: e=match(toks,j)
            if not attr_test: out.append(Item("fn",name,cont,start,e+1,toks,(j,e) if e!=j else None)); out[-1].fnkw=i
            i=e+1; attr_test=False; start=None; continue
        if t.k=="id" and t.s in("struct","enum","union"):
            name=toks[i+1].s; j=i+2; d=0
            while True:
                if is_p(toks[j],"("): j=match(toks,j)+1; continue
                if is_p(toks[j],"{"): e=match(toks,j); break
                if is_p(toks[j],";"): e=j; break
                j+=1
            if not attr_test: out.append(Item(t.s,name,cont,start,e+1,toks)); out[-1].kw=i
            i=e+1; attr_test=False; start=None; continue
        if t.k=="id" and t.s in("const","static","type","use"):
            name=toks[i+1].s; j=i
            while not is_p(toks[j],";"):
                if toks[j].k=="p" and toks[j].s in OPEN: j=match(toks,j)
                j+=1
            if not attr_test: out.append(Item(t.s,name,cont,start,j+1,toks)); out[-1].kw=i
            i=j+1; attr_test=False; start=None; continue
        if t.k=="id" and i+1<hi and is_p(toks[i+1],"!"):
            j=i+2
            while not (toks[j].k=="p" and toks[j].s in OPEN): j+=1
            e=match(toks,j)
            if e+1<hi and is_p(toks[e+1],";"): e+=1
            i=e+1; attr_test=False; start=None; continue
        i+=1; 
        if is_p(t,";") or is_p(t,"}"): start=None; attr_test=False

_cache={}
def load(repo,file):
    if "#" in file: return load_macro(repo,file)
    p=os.path.join(repo,file)
    if p not in _cache:
        try: src=open(p,encoding="utf-8").read()
        except OSError: raise Lost(f"no file {file}")
        toks=lex(src); items=[]
        index(toks,0,len(toks),"",items)
        _cache[p]=(src,toks,items)
    return _cache[p]

def load_macro(repo,file):
    """FILE#MACRO#ARG: the items that the invocation MACRO!(ARG) of a single-arm macro expands to"""
    key=os.path.join(repo,file)
    if key in _cache: return _cache[key]
    f,mac,arg=file.split("#")
    src,toks,_=load(repo,f)
    body=None; params=[]
    for i in range(len(toks)-4):
        if is_id(toks[i],"macro_rules") and is_p(toks[i+1],"!") and is_id(toks[i+2],mac):
            o=i+3; e=match(toks,o)
            pe=match(toks,o+1)
            params=[toks[k+1].s for k in range(o+1,pe) if is_p(toks[k],"$")]
            if not is_p(toks[pe+1],"=>"): raise Lost(f"macro {mac}")
            be=match(toks,pe+2)
            rest=[t for t in toks[be+1:e] if not is_p(t,";")]
            if rest: raise Lost(f"macro {mac}: several arms")
            body=toks[pe+3:be]
    if body is None: raise Lost(f"no macro {mac}")
    want=norm(lex(arg))
    uses=[i for i in range(len(toks)-2) if is_id(toks[i],mac) and is_p(toks[i+1],"!") and norm(toks[i+3:match(toks,i+2)])==want]
    if not uses: raise Lost(f"{mac}!({arg}) is not invoked")
    if len(params)!=1: raise Lost(f"macro {mac}: {len(params)} parameters")
    at=lex(arg); out=[]; k=0
    while k<len(body):
        if is_p(body[k],"$") and k+1<len(body) and body[k+1].s==params[0]:
            for a in at: out.append(Tok(a.k,a.s,body[k].a,body[k].b))
            k+=2; continue
        if is_p(body[k],"$"): raise Lost(f"macro {mac}: repetition")
        out.append(body[k]); k+=1
    items=[]; index(out,0,len(out),"",items)
    _cache[key]=(src,out,items)
    return _cache[key]

def _n(s): return norm(lex(s))
def find(repo,file,kind,path):
    src,toks,items=load(repo,file)
    parts=[x.strip() for x in path.split(" :: ")]
    name=parts[-1]; cont=_n(parts[0]) if len(parts)>1 else ""
    def okc(c):
        if not cont: return not c.startswith(("impl","trait")) 
        return c==cont
    c=[x for x in items if x.kind==kind and x.name==name and okc(x.cont)]
    if not c:
        # container text may have changed (e.g. lifetimes): accept a unique fn of that name in a like container
        key=[w for w in re.findall(r"[A-Za-z_]\w*",cont) if w not in("impl","for")]
        c=[x for x in items if x.kind==kind and x.name==name and x.cont and key and all(k in re.findall(r"\w+",x.cont) for k in key[-1:])]
    if len(c)!=1: raise Lost(f"{file}: {kind} {path}: {len(c)} candidates")
    return src,c[0]

# ---------------------------------------------------------------- rewriting
def bytes_of(lit):
    """bytes of a byte-string literal token"""
    m=re.match(r'b?r(#*)"(.*)"\1$',lit,re.S)
    if m: return m.group(2).encode()
    body=lit[lit.index('"')+1:-1]; out=bytearray(); i=0
    while i<len(body):
        c=body[i]
        if c!="\\": out+=c.encode(); i+=1; continue
        d=body[i+1]
        if d=="x": out.append(int(body[i+2:i+4],16)); i+=4
        elif d=="n": out.append(10); i+=2
        elif d=="r": out.append(13); i+=2
        elif d=="t": out.append(9); i+=2
        elif d=="0": out.append(0); i+=2
        elif d in "\\'\"": out+=d.encode(); i+=2
        elif d=="\n":
            i+=2
            while i<len(body) and body[i].isspace(): i+=1
        else: raise Lost("escape "+d)
    return bytes(out)

class Unit:
    def __init__(u,repo): u.repo=repo; u.stubs=[]; u.bstr={}; u.notes=[]; u.fns=[]; u.drops={}
    def bconst(u,lit):
        b=bytes_of(lit)
        if b not in u.bstr: u.bstr[b]=f"BS_{len(u.bstr)}_"+("".join(ch if ch.isalnum() else "_" for ch in b.decode('latin1')[:12] if ord(ch)<128))
        return u.bstr[b]
    def emit_bconsts(u):
        o=[]
        for b,n in u.bstr.items():
            arr=", ".join(f"0x{x:02x}u8" for x in b)
            if len(b)==0:
                o.append(f"pub open spec fn {n}__() -> Seq<u8> {{ Seq::empty() }}\npub exec const {n}: &'static [u8] ensures {n}@ == {n}__() {{ let a: &'static [u8] = &[]; assert(a@ =~= {n}__()); a }}")
            else:
                o.append(f"pub open spec fn {n}__() -> Seq<u8> {{ seq![{arr}] }}\npub exec const {n}: &'static [u8] ensures {n}@ == {n}__() {{ let a: &'static [u8] = &[{arr}]; assert(a@ =~= {n}__()); a }}")
        return "\n".join(o)

def str_match(ts,i):
    """`match` whose patterns are string literals and a final catch-all: (scrutinee, arms, closing index)"""
    j=i+1; n=len(ts)
    while not is_p(ts[j],"{"):
        if ts[j].k=="p" and ts[j].s in OPEN: j=match(ts,j)
        j+=1
        if j>=n: return None
    e=match(ts,j); k=j+1; arms=[]
    kind=ts[k].k
    if kind not in ("str","bstr"): return None
    while k<e:
        lits=bind=None; guard=[]
        if ts[k].k==kind:
            lits=[ts[k]]; k+=1
            while is_p(ts[k],"|"):
                if ts[k+1].k!=kind: return None
                lits.append(ts[k+1]); k+=2
        elif ts[k].k=="id": bind=None if ts[k].s=="_" else ts[k].s; k+=1
        else: return None
        if is_id(ts[k],"if"):
            if lits is None: return None
            a=k+1
            while not is_p(ts[k],"=>"): k=(match(ts,k) if ts[k].k=="p" and ts[k].s in OPEN else k)+1
            guard=ts[a:k]
        if not is_p(ts[k],"=>"): return None
        k+=1
        if is_p(ts[k],"{") :
            b=match(ts,k); body=ts[k:b+1]; k=b+1
        else:
            a=k
            while k<e and not is_p(ts[k],","): k=(match(ts,k) if ts[k].k=="p" and ts[k].s in OPEN else k)+1
            body=ts[a:k]
        if k<e and is_p(ts[k],","): k+=1
        arms.append((lits,bind,guard,body))
        if lits is None and k<e: return None
    if arms[-1][0] is not None: return None
    return ts[i+1:j],arms,e

def generic_rewrite(u,ts,keep_str=False,drop_msgs=True):
    """token list -> token-ish list (strings) applying RULES"""
    out=[]; i=0; n=len(ts)
    def push(s,t=None): out.append((s,t))
    while i<n:
        t=ts[i]
        # attributes inside bodies
        if is_p(t,"#") and i+1<n and is_p(ts[i+1],"["):
            i=match(ts,i+1)+1; continue
        # tracing
        if is_id(t,"tracing") and i+3<n and is_p(ts[i+1],"::") and is_p(ts[i+3],"!"):
            e=match(ts,i+4)
            i=e+1
            if i<n and is_p(ts[i],";"): i+=1
            else: push("()")
            continue
        # pub(..)
        if is_id(t,"pub") and i+1<n and is_p(ts[i+1],"(") and ts[i+2].s in("crate","super","self","in"):
            push("pub"); i=match(ts,i+1)+1; continue
        if is_id(t,"async") and i+1<n and (is_id(ts[i+1],"fn")): i+=1; continue
        if is_id(t,"crate") and i+3<n and is_p(ts[i+1],"::") and is_id(ts[i+2],"error") and is_p(ts[i+3],"::"): i+=4; continue
        if is_id(t,"crate") and i+2<n and is_p(ts[i+1],"::") and is_id(ts[i+2],"Result"): push("CResult"); i+=3; continue
        if is_id(t,"matches") and i+1<n and is_p(ts[i+1],"!"):
            e=match(ts,i+2); inner=ts[i+3:e]; d=0; cut=None
            for k,x in enumerate(inner):
                if x.k=="p" and x.s in OPEN: d+=1
                elif x.k=="p" and x.s in CLOSE: d-=1
                elif d==0 and is_p(x,",") and cut is None and k<len(inner)-1: cut=k
            pat=inner[cut+1:]
            if pat and is_p(pat[-1],","): pat=pat[:-1]
            push("("); push("match"); out.extend(generic_rewrite(u,inner[:cut],keep_str,drop_msgs)); push("{"); out.extend(generic_rewrite(u,pat,keep_str,drop_msgs)); push("=>"); push("true"); push(","); push("_"); push("=>"); push("false"); push(","); push("}"); push(")")
            i=e+1; continue
        if is_id(t,"match"):
            w=str_match(ts,i)
            if w:
                scrut,arms,e=w
                push("{"); push("let"); push("vm"); push("="); out.extend(generic_rewrite(u,scrut,keep_str,drop_msgs)); push(";")
                for k,(lits,bind,guard,body) in enumerate(arms):
                    if k: push("else")
                    if lits is not None:
                        push("if"); push("(")
                        for q,l in enumerate(lits):
                            if q: push("||")
                            if l.k=="bstr": push("v_eq_bytes"); push("("); push("vm"); push(","); push(u.bconst(l.s)); push(")")
                            else: push("v_str_eq"); push("("); push("vm"); push(","); push(l.s,l); push(")")
                        push(")")
                        if guard: push("&&"); push("("); out.extend(generic_rewrite(u,guard,keep_str,drop_msgs)); push(")")
                    push("{")
                    if bind: push("let"); push(bind); push("="); push("vm"); push(";")
                    out.extend(generic_rewrite(u,body,keep_str,drop_msgs)); push("}")
                push("}")
                i=e+1; continue
        if is_p(t,".") and i+1<n and is_id(ts[i+1],"await"): i+=2; continue
        # format!(..)
        if drop_msgs and is_id(t,"format") and i+1<n and is_p(ts[i+1],"!"):
            e=match(ts,i+2); push("vmsg()"); i=e+1
            if i+3<n and is_p(ts[i],".") and ts[i+1].s in("into",) : i+=4
            continue
        if drop_msgs and t.k=="str" and i+4<n and is_p(ts[i+1],".") and ts[i+2].s in("into","to_string","to_owned") and is_p(ts[i+3],"("):
            push("vmsg()"); i+=5; continue
        if t.k=="id" and t.s in("panic","unimplemented","unreachable","todo") and i+1<n and is_p(ts[i+1],"!"):
            e=match(ts,i+2); push("vstd::pervasive::unreached()"); i=e+1; continue
        # assert!/assert_eq!
        if is_id(t,"assert") and i+1<n and is_p(ts[i+1],"!"):
            e=match(ts,i+2); inner=ts[i+3:e]
            d=0; cut=len(inner)
            for k,x in enumerate(inner):
                if x.k=="p" and x.s in OPEN: d+=1
                elif x.k=="p" and x.s in CLOSE: d-=1
                elif d==0 and is_p(x,","): cut=k; break
            push("if"); push("!"); push("(")
            out.extend(generic_rewrite(u,inner[:cut])); push(")"); push("{ vpanic() }")
            i=e+1
            if i<n and is_p(ts[i],";"): i+=1
            continue
        if is_id(t,"assert_eq") and i+1<n and is_p(ts[i+1],"!"):
            e=match(ts,i+2); inner=ts[i+3:e]; d=0; cuts=[]
            for k,x in enumerate(inner):
                if x.k=="p" and x.s in OPEN: d+=1
                elif x.k=="p" and x.s in CLOSE: d-=1
                elif d==0 and is_p(x,","): cuts.append(k)
            cuts.append(len(inner))
            push("if"); push("!"); push("("); push("(")
            out.extend(generic_rewrite(u,inner[:cuts[0]])); push(")"); push("=="); push("(")
            out.extend(generic_rewrite(u,inner[cuts[0]+1:cuts[1]])); push(")"); push(")"); push("{ vpanic() }")
            i=e+1
            if i<n and is_p(ts[i],";"): i+=1
            continue
        if is_p(t,".") and i+3<n and is_id(ts[i+1],"expect") and is_p(ts[i+2],"(") and ts[i+3].k=="str":
            push(".unwrap()"); i=match(ts,i+2)+1; continue
        if is_p(t,".") and i+2<n and ts[i+1].s in METHODS and is_p(ts[i+2],"("):
            push("."+METHODS[ts[i+1].s]); i+=2; continue
        # turbofish with nom error hint
        if is_p(t,"::") and i+1<n and is_p(ts[i+1],"<"):
            d=0;j=i+1
            while True:
                if is_p(ts[j],"<"): d+=1
                elif is_p(ts[j],">"): d-=1
                if d==0: break
                j+=1
            txt=norm(ts[i:j+1])
            if "nom :: error :: Error" in txt:
                i=j+1; continue
        if is_p(t,"|") and i+2<n and is_id(ts[i+1],"_") and is_p(ts[i+2],"|"):
            push("|"); push("_u"); push("|"); i+=3; continue
        # [std::]cmp::min / max
        if is_id(t,"cmp") and i+3<n and is_p(ts[i+1],"::") and ts[i+2].s in ("min","max") and is_p(ts[i+3],"("):
            if len(out)>=2 and out[-1][0]=="::" and out[-2][0] in ("std","core"): out.pop(); out.pop()
            push("v_"+ts[i+2].s); i+=3; continue
        # for x in m.values_mut() { *x = e; }
        if is_id(t,"for") and i+3<n and is_id(ts[i+2],"in"):
            b=i+3
            while b<n and not is_p(ts[b],"{"): b=(match(ts,b) if ts[b].k=="p" and ts[b].s in ("(","[") else b)+1
            if b<n and norm(ts[i+3:b]).replace(" ","").endswith(".values_mut()"):
                e=match(ts,b); x=ts[i+1].s; body=ts[b+1:e]
                if len(body)>4 and is_p(body[0],"*") and is_id(body[1],x) and is_p(body[2],"=") and is_p(body[-1],";") and not any(is_p(y,";") for y in body[:-1]):
                    out.extend(generic_rewrite(u,ts[i+3:b-4],keep_str,drop_msgs)); push("."); push("v_values_mut"); push("("); push("|"); push(x); push("|"); push("{")
                    rb=[y for k,y in enumerate(body[3:-1]) if not (is_p(y,"*") and k+1<len(body[3:-1]) and is_id(body[3:-1][k+1],x))]
                    out.extend(generic_rewrite(u,rb,keep_str,drop_msgs)); push("}"); push(")"); push(";")
                    i=e+1; continue
        # (p1, .., pn).parse(e)?  with more parsers than the tuples of the shim: one after another
        if is_p(t,"(") and (i==0 or not(ts[i-1].k in("id",) and ts[i-1].s not in("return","in","if","match","else") or ts[i-1].s in(")","]",">","?"))):
            e=match(ts,i)
            if e+3<n and is_p(ts[e+1],".") and is_id(ts[e+2],"parse") and is_p(ts[e+3],"("):
                e2=match(ts,e+3)
                if e2+1<n and is_p(ts[e2+1],"?"):
                    parts=[[]]; k=i+1
                    while k<e:
                        if is_p(ts[k],","): parts.append([]); k+=1; continue
                        if is_p(ts[k],"::") and is_p(ts[k+1],"<"): # turbofish
                            d=0; z=k+1
                            while True:
                                d+=1 if is_p(ts[z],"<") else -1 if is_p(ts[z],">") else 0
                                z+=1
                                if d==0: break
                            parts[-1]+=ts[k:z]; k=z; continue
                        z=match(ts,k)+1 if ts[k].k=="p" and ts[k].s in OPEN else k+1
                        parts[-1]+=ts[k:z]; k=z
                    parts=[x for x in parts if x]
                    if len(parts)>=5:
                        push("{"); cur=ts[e+4:e2]; total=0
                        for q,x in enumerate(parts):
                            fnitem=all(y.k=="id" or y.s in("::",":") for y in x) # a function: parsing is calling it
                            push(f"let (vr{q}, vt{q}) = "+("" if fnitem else "(")); out.extend(generic_rewrite(u,x,keep_str,drop_msgs)); push("(" if fnitem else ").parse(")
                            out.extend(generic_rewrite(u,cur,keep_str,drop_msgs)); push(")?;")
                            w=re.fullmatch(r"[bl]e_[ui](8|16|24|32|64)|(u8)|take\((\d+)usize\)|tag\(b?\"(\w+)\"\)","".join(y.s for y in x))
                            total=None if w is None or total is None else total+(int(w.group(1))//8 if w.group(1) else 1 if w.group(2) else int(w.group(3)) if w.group(3) else len(w.group(4)))
                            if total is not None: push("assert("); push(f"vr{q}@ =~= "); out.extend(generic_rewrite(u,ts[e+4:e2],keep_str,drop_msgs)); push(f"@.skip({total}));") # a hint: checked, then used
                            cur=[Tok("id",f"vr{q}",0,0)]
                        push(f"(vr{len(parts)-1}, ("+", ".join(f"vt{q}" for q in range(len(parts)))+"))"); push("}")
                        i=e2+2; continue
        # closure with a tuple pattern
        if is_p(t,"|") and i and i+1<n and is_p(ts[i+1],"(") and ts[i-1].k=="p" and ts[i-1].s in("(",","):
            pe=match(ts,i+1)
            if pe+1<n and is_p(ts[pe+1],"|"):
                b=pe+2
                if is_p(ts[b],"{"): e=match(ts,b)+1
                else:
                    e=b
                    while e<n and not (ts[e].k=="p" and ts[e].s in CLOSE|{","}): e=(match(ts,e) if ts[e].k=="p" and ts[e].s in OPEN else e)+1
                push("|"); push("vt"); push("|"); push("{"); push("let"); out.extend(generic_rewrite(u,ts[i+1:pe+1],keep_str,drop_msgs)); push("="); push("vt"); push(";")
                out.extend(generic_rewrite(u,ts[b:e],keep_str,drop_msgs)); push("}")
                i=e; continue
        if t.k=="bstr":
            # &b"..."[..]  or b"..."
            name=u.bconst(t.s)
            push(name); i+=1; continue
        push(t.s,t); i+=1
    return out

def render(out):
    s=[];prev=""
    for x,_ in out:
        if prev and (re.match(r"[\w'\"]",x[0]) and re.match(r"[\w'\"]",prev[-1])): s.append(" ")
        elif prev in(",",";","{","}","=","=>","->","==","+","-","*","/","<=",">=","&&","||","if","else","match","in","as","let","mut","return") or x in("{","=","=>","->","==","+","*","/","<=",">=","&&","||","}"):
            s.append(" ")
        elif prev=="|" or x=="|": s.append(" ")
        elif prev==">" and x==">": pass
        elif prev=="<" or x=="<" or prev==">" or x==">": s.append(" ")
        elif prev in (":","&") or x in("-",): s.append(" ")
        elif prev=="!" or x=="!": pass
        else: s.append(" ") if (prev and x and prev[-1] not in "([.:&" and x[0] not in ")].,;:([?") else None
        s.append(x)
        if x in(";","{","}"): s.append("\n")
        prev=x
    return "".join(s)

def seq_find(out,pat):
    p=[t.s for t in lex(pat)]
    flat=[]  # list of (string, out index)
    for k,(x,_) in enumerate(out):
        for t in lex(x): flat.append((t.s,k))
    r=[];i=0
    while i+len(p)<=len(flat):
        if all(flat[i+k][0]==p[k] for k in range(len(p))):
            r.append((flat[i][1],flat[i+len(p)-1][1]+1)); i+=len(p)
        else: i+=1
    return r

def apply_subst(out,pat,rep):
    fs=seq_find(out,pat)
    for a,b in reversed(fs): out[a:b]=[(rep,None)]
    return len(fs)

LOOPKW={"loop","while","for"}
def find_loops(ts):
    """(kw index, body open index, body close index) in order, over rewritten tokens (strings)"""
    r=[]
    n=len(ts)
    for i,(x,_) in enumerate(ts):
        if x in LOOPKW:
            if x=="for" and i+1<n and ts[i+1][0]=="<": continue
            d=0;j=i+1
            while True:
                y=ts[j][0]
                if y in("(","["): d+=1
                elif y in(")","]"): d-=1
                elif y=="{" and d==0: break
                j+=1
            d=0;k=j
            while True:
                y=ts[k][0]
                # composite strings contain balanced braces
                if y=="{": d+=1
                elif y=="}": d-=1
                if d==0: break
                k+=1
            r.append((i,j,k))
    return r

def break_values(o,brktype=()):
    """`let P = loop { .. break E; .. };`  =>  `let brkN; loop { .. { brkN = E; break; } .. } let P = brkN;` """
    n=0; i=0
    while i<len(o):
        if o[i][0]=="loop" and i>0 and o[i-1][0]=="=":
            # statement start
            q=i
            while q>0 and o[q-1][0] not in(";","{","}"): q-=1
            j=i+1; d=0;k=j
            while True:
                if o[k][0]=="{": d+=1
                elif o[k][0]=="}":
                    d-=1
                    if d==0: break
                k+=1
            name=f"brk{n}"; n+=1
            pat=o[q:i]          # let P =
            body=o[j:k+1]
            res=[];m=0;skip=[]
            lp=[(a,c) for a,b,c in find_loops(body)]
            while m<len(body):
                if body[m][0]=="break" and m+1<len(body) and body[m+1][0] not in(";","}",",") and not any(a<=m<=c for a,c in lp):
                    e=m+1; dd=0
                    while not (dd==0 and body[e][0] in(";","}",",")):
                        if body[e][0] in OPEN: dd+=1
                        elif body[e][0] in CLOSE: dd-=1
                        e+=1
                    res+= [("{",None),(name,None),("=",None)]+body[m+1:e]+[(";",None),("break",None),(";",None),("}",None)]
                    m=e
                    continue
                res.append(body[m]); m+=1
            new=[("let",None),(name+(": "+brktype[n-1] if len(brktype)>=n else ""),None),(";",None),("loop",None)]+res+pat_fix(pat)+[(name,None)]
            o[q:k+1]=new
            i=q+4
        i+=1
    return o
def pat_fix(p): return p

def find_closures(ts):
    """(start, params end (exclusive), body start, body end (exclusive), is_block)"""
    r=[];n=len(ts);i=0
    PREV={"(",",","=","{",";","=>","return","move","}","&&","||"}
    while i<n:
        x=ts[i][0]
        if x in("|","||") and (i==0 or ts[i-1][0] in PREV):
            if x=="||" and ts[i-1][0] not in("(",",","=","move","{",";"): i+=1; continue
            if x=="|" :
                j=i+1;d=0
                while ts[j][0]!="|" or d:
                    if ts[j][0] in("(","[","<"): d+=1
                    elif ts[j][0] in(")","]",">"): d-=1
                    j+=1
            else: j=i
            b=j+1
            s0=i-1 if i>0 and ts[i-1][0]=="move" else i
            if ts[b][0]=="{":
                d=0;k=b
                while True:
                    if ts[k][0]=="{": d+=1
                    elif ts[k][0]=="}":
                        d-=1
                        if d==0: break
                    k+=1
                r.append((s0,j+1,b,k+1,True))
            else:
                d=0;k=b
                while k<n:
                    y=ts[k][0]
                    if y=="<" and ts[k-1][0]=="::":   # turbofish
                        a=0
                        while True:
                            if ts[k][0]=="<": a+=1
                            elif ts[k][0]==">": a-=1
                            elif ts[k][0]==">>": a-=2
                            k+=1
                            if a<=0: break
                        continue
                    if y in("(","[","{"): d+=1
                    elif y in(")","]","}"):
                        if d==0: break
                        d-=1
                    elif d==0 and y in(",",";"): break
                    k+=1
                r.append((s0,j+1,b,k,False))
            i=j+1; continue
        i+=1
    return r

def sig_text(toks): return norm(toks)

def build_fn(u,file,path,directives):
    src,it=find(u.repo,file,"fn",path)
    if it.body is None: raise Lost("no body")
    bo,be=it.body
    sig=it.toks[it.fnkw:bo]
    body=it.toks[bo:be+1]
    for k in range(len(sig)-2):
        if is_p(sig[k],"(") and is_id(sig[k+1],"mut") and is_id(sig[k+2],"self"):
            sig=sig[:k+1]+sig[k+2:]
            body=[Tok("id","slf",t.a,t.b) if is_id(t,"self") else t for t in body]
            body=body[:1]+[Tok(*x,0,0) for x in (("id","let"),("id","mut"),("id","slf"),("p","="),("id","self"),("p",";"))]+body[1:]
            break
    # a closure that changes what it captured: its body becomes a function of its own (captures are `&mut` parameters)
    for d,a,_ in directives:
        if d in("onlyclosure","dropclosure"):
            n_,_,rep=a.partition("=>"); cl=find_closures([(t.s,t) for t in body]); n_=int(n_)
            if n_>=len(cl): raise Lost(f"{path}: {len(cl)} closures, contract needs {n_+1}")
            a0,c0,b0,e0,blk=cl[n_]
            if d=="dropclosure": body=body[:a0]+[Tok(t.k,t.s,body[a0].a,body[a0].b) for t in lex(rep)]+body[e0:]
            else: body=body[b0:e0] if blk else [Tok("p","{",0,0)]+body[b0:e0]+[Tok("p","}",0,0)]
    presub=[]
    for d,a,_ in directives:
        if d in("presubst","presubst?"):
            m=re.match(r"`(.*?)`\s*=>\s*`(.*?)`\s*$",a,re.S)
            p=[t.s for t in lex(m.group(1))]; rep=lex(m.group(2)); k=0; hit=0
            while k+len(p)<=len(body):
                if [t.s for t in body[k:k+len(p)]]==p:
                    nt=[Tok(t.k,t.s,body[k].a,body[k].b) for t in rep]
                    body=body[:k]+nt+body[k+len(p):]; k+=len(nt); hit+=1
                else: k+=1
            if not hit and d=="presubst": raise Lost(f"{path}: presubst `{m.group(1)}` not found")
            if hit: presub.append(a)
    # nested functions are hoisted
    hoisted=[]; k=1
    while k<len(body)-1:
        if is_id(body[k],"fn") and body[k+1].k=="id" and (k==0 or body[k-1].s in("{","}",";")):
            j=k
            while not is_p(body[j],"{"): j+=1
            e=match(body,j)
            old=body[k+1].s; new=f"{old}__{len(u.fns)}"
            nest=body[k:e+1]; body=body[:k]+body[e+1:]
            def ren(ts): return [Tok("id",new,t.a,t.b) if is_id(t,old) else t for t in ts]
            body=ren(body); 
            hs=[a for d,a,_ in directives if d=="hoistspec"]
            hr=generic_rewrite(u,ren(nest))
            if hs:
                ai=[i for i,(x,_) in enumerate(hr) if x=="->"][0]; bi=[i for i,(x,_) in enumerate(hr) if x=="{"][0]
                hr[ai+1:bi]=[("(h: "+render(hr[ai+1:bi])+") "+hs[0],None)]
            hoisted.append("pub "+render(hr)+"\n")
            continue
        k+=1
    o_sig=generic_rewrite(u,sig); o_body=generic_rewrite(u,body)
    o_body=break_values(o_body,[a for d,a,_ in directives if d=="brktype"])
    info={"fn":path,"file":file,"lines":[src.count("\n",0,it.toks[it.fnkw].a)+1,src.count("\n",0,it.toks[be].b)+1],"subst":presub,"hints_lost":[]}
    rename=None; ret="res"; attrs=[]; specs=[]; loops={}; clos={}; ats=[]; prefix=""; outer=""; sigsub=None
    for d,arg,txt in directives:
        if d=="ret": ret=arg
        elif d=="attr": attrs.append(arg)
        elif d=="spec": specs.append(txt)
        elif d=="loop": loops[int(arg)]=txt
        elif d=="closure": clos[int(arg)]=txt
        elif d=="at": ats.append((arg,txt))
        elif d in("subst","subst?"):
            m=re.match(r"`(.*?)`\s*=>\s*`(.*?)`\s*$",arg,re.S)
            if not m: raise SystemExit("bad subst "+arg)
            k=apply_subst(o_body,m.group(1),m.group(2))+apply_subst(o_sig,m.group(1),m.group(2))
            if k==0 and d=="subst": raise Lost(f"{path}: subst `{m.group(1)}` not found")
            if k: info["subst"].append(arg)
        elif d in("presubst","presubst?","hoistspec","onlyclosure","dropclosure"): pass
        elif d=="rename": rename=arg
        elif d=="sig": sigsub=arg
        elif d=="prefix": prefix=arg
        elif d=="brktype": pass
        elif d=="wrap": outer=arg
        elif d=="nloops":
            info["nloops"]=int(arg)
        else: raise SystemExit("directive "+d)
    info["sig"]=sig_text(sig)
    # name the return value
    ds=0; arrow=None; where=None
    for k,(x,_) in enumerate(o_sig):
        if x in("(","["): ds+=1
        elif x in(")","]"): ds-=1
        elif ds==0 and x=="->" and where is None: arrow=k
        elif ds==0 and x=="where": where=k
    end=where if where is not None else len(o_sig)
    if arrow is not None:
        o_sig=o_sig[:arrow+1]+[("(",None),(ret,None),(":",None)]+o_sig[arrow+1:end]+[(")",None)]+o_sig[end:]
    if rename:
        o_sig[1]=(rename,None)
    sigtxt=sigsub if sigsub else render(o_sig)
    if where is not None and not sigsub and not sigtxt.rstrip().endswith(","): sigtxt+=","
    if clos:
        cl=find_closures(o_body)
        if max(clos)>=len(cl): raise Lost(f"{path}: {len(cl)} closures, contract needs {max(clos)+1}")
        eds=[]
        for k,txt in clos.items():
            a,b,c,d,blk=cl[k]
            if not blk: eds.append((d,d,"}"));
            eds.append((a,c,txt.strip()+("" if blk else " {")))
        for a,b,t in sorted(eds,key=lambda z:(-z[0],-z[1])):
            o_body[a:b]=[(t,None)] if not t.startswith("|") and not t.endswith("{") else [(t.rstrip("{") if t.endswith("{") else t,None)]+([("{",None)] if t.endswith("{") else [])
    lp=find_loops(o_body)
    info["loops"]=len(lp)
    if loops and max(loops)>=len(lp): raise Lost(f"{path}: {len(lp)} loops, contract needs {max(loops)+1}")
    if "nloops" in info and info["nloops"]!=len(lp): raise Lost(f"{path}: {len(lp)} loops, contract written for {info['nloops']}")
    ins=[]  # (index, text) insert before index
    for k,txt in loops.items(): ins.append((lp[k][1],"\n"+txt.rstrip()+"\n"))
    for where_,txt in ats:
        txt="\n"+txt.rstrip()+"\n"
        w=where_.strip()
        m=re.match(r"(before loop|after loop|loop) (\d+)( start| end)?$",w)
        if w=="start": ins.append((1,txt))
        elif m:
            k=int(m.group(2))
            if k>=len(lp): info["hints_lost"].append(w); continue
            a,b,c=lp[k]
            if m.group(1)=="before loop":
                # go back over label / let-binding prefix to statement start
                q=a
                while q>0 and o_body[q-1][0] not in(";","{","}"): q-=1
                ins.append((q,txt))
            elif m.group(1)=="after loop": ins.append((c+1,txt))
            elif m.group(3)==" start": ins.append((b+1,txt))
            else: ins.append((c,txt))
        else:
            m=re.match(r"(before|after)( all)? `(.*)`$",w,re.S)
            if not m: raise SystemExit("bad at "+w)
            fs=seq_find(o_body,m.group(3))
            if len(fs)!=1 and not (m.group(2) and fs): info["hints_lost"].append(w); continue
            for f in fs: ins.append((f[0] if m.group(1)=="before" else f[1],txt))
    for pos,txt in sorted(ins,key=lambda z:-z[0]):
        o_body[pos:pos]=[(txt,None)]
    if not outer and " :: " in path: outer=path.split(" :: ")[0]
    text="".join(hoisted)+(outer+" {\n" if outer and outer!="none" else "")+prefix+("\n".join(attrs)+"\n" if attrs else "")+("" if " for " in outer else "pub ")+sigtxt+"\n"+"\n".join(s.rstrip() for s in specs)+"\n"+render(o_body)+("\n}\n" if outer and outer!="none" else "")
    u.fns.append(info)
    return text,info

def unit_lines(cdir,unit):
    ls=open(os.path.join(cdir,unit+".vrs")).read().split("\n"); i=0
    while i<len(ls):
        m=re.match(r"\s*//@include (\S+\.vrs)",ls[i])
        if m: ls[i:i+1]=open(os.path.join(cdir,m.group(1))).read().split("\n"); continue
        i+=1
    return ls
def find_block(cdir,unit,file,path):
    ls=unit_lines(cdir,unit); i=0
    while i<len(ls):
        if ls[i].strip().startswith("//@fn"):
            a=ls[i].strip().split(None,2); dirs=[]; cur=None; i+=1
            while ls[i].strip()!="//@end":
                s=ls[i].strip()
                if s.startswith("//@"):
                    d,_,arg=s[3:].partition(" "); cur=[d,arg.strip(),""]; dirs.append(cur)
                else: cur[2]+=ls[i]+"\n"
                i+=1
            if a[1]==file and a[2]==path and not any(d[0]=="onlyclosure" for d in dirs): return dirs
        i+=1
    raise SystemExit(f"no contract for {file} {path} in unit {unit}")
def build_stub(u,cdir,unit,file,path,extra):
    """the contract proved for this function in another unit, without its body"""
    src,it=find(u.repo,file,"fn",path)
    if it.body is None: raise Lost("no body")
    dirs=find_block(cdir,unit,file,path)
    ov={d for d,_,_ in extra}
    dirs=[d for d in dirs if d[0] not in ov]+extra
    o_sig=generic_rewrite(u,it.toks[it.fnkw:it.body[0]])
    ret="res"; specs=[]; sigsub=None; outer=""; prefix=""; rename=None
    for d,arg,txt in dirs:
        if d=="ret": ret=arg
        elif d=="spec": specs.append(txt)
        elif d=="sig": sigsub=arg
        elif d=="wrap": outer=arg
        elif d=="rename": rename=arg
        elif d=="prefix": prefix=arg
        elif d in("subst","subst?"):
            m=re.match(r"`(.*?)`\s*=>\s*`(.*?)`\s*$",arg,re.S); apply_subst(o_sig,m.group(1),m.group(2))
    ds=0; arrow=None; where=None
    for k,(x,_) in enumerate(o_sig):
        if x in("(","["): ds+=1
        elif x in(")","]"): ds-=1
        elif ds==0 and x=="->" and where is None: arrow=k
        elif ds==0 and x=="where": where=k
    end=where if where is not None else len(o_sig)
    if arrow is not None:
        o_sig=o_sig[:arrow+1]+[("(",None),(ret,None),(":",None)]+o_sig[arrow+1:end]+[(")",None)]+o_sig[end:]
    if rename: o_sig[1]=(rename,None)
    sigtxt=sigsub if sigsub else render(o_sig)
    sigtxt=re.sub(r"(?<!& )(?<!&)\bmut (?=self\b)","",sigtxt)
    if where is not None and not sigsub and not sigtxt.rstrip().endswith(","): sigtxt+=","
    if not outer and " :: " in path: outer=path.split(" :: ")[0]
    u.stubs.append({"fn":path,"file":file,"unit":unit})
    return (outer+" {\n" if outer and outer!="none" else "")+prefix+f"// contract proved in unit {unit}\n#[verifier::external_body] "+("" if " for " in outer else "pub ")+sigtxt+"\n"+"\n".join(x.rstrip() for x in specs)+"\n{ unimplemented!() }\n"+("}\n" if outer and outer!="none" else "")

def build_item(u,file,kind,name,opts):
    src,it=find(u.repo,file,kind,name); name=name.split(' :: ')[-1]
    ts=it.toks[it.kw:it.b]
    if kind=="const":
        # byte-slice constant?
        txt=norm(ts)
        m=re.match(r"const (\w+) : & (?:'static )?\[ u8 (?:; \d+ )?\] = (b\".*\"|b'.*') ;$",txt,re.S)
        if m:
            b=bytes_of(m.group(2)); n=m.group(1)
            arr=", ".join(f"0x{x:02x}u8" for x in b)
            return f"pub open spec fn {n}__() -> Seq<u8> {{ seq![{arr}] }}\npub exec const {n}: &'static [u8] ensures {n}@ == {n}__(), {n}@.len() == {len(b)} {{ let a: &'static [u8] = &[{arr}]; assert(a@ =~= {n}__()); a }}\n"
        m=re.match(r"const (\w+) : & (?:'static )?str = (\".*\") ;$",txt,re.S)
        if m and "bytes" in opts:
            b=bytes_of("b"+m.group(2)); n=m.group(1)
            arr=", ".join(f"0x{x:02x}u8" for x in b)
            return f"pub open spec fn {n}__() -> Seq<u8> {{ seq![{arr}] }}\npub exec const {n}: &'static [u8] ensures {n}@ == {n}__(), {n}@.len() == {len(b)} {{ let a: &'static [u8] = &[{arr}]; assert(a@ =~= {n}__()); a }}\n"
    if kind=="const" and "byteslist" in opts:
        # a list of byte strings (texts count as their bytes): which strings are in it, whatever their order
        n=ts[1].s; eq=[k for k,t in enumerate(ts) if is_p(t,"=")][0]
        lits=[t for t in ts[eq+1:] if t.s[:1] in('"',"b") and t.s.endswith('"')]
        if any(t.s not in("&","[","]",",",";") for t in ts[eq+1:] if t not in lits): raise Lost(f"{n}: not a list of literals")
        bs=[bytes_of(t.s if t.s[0]=="b" else "b"+t.s) for t in lits]
        sq=["seq!["+", ".join(f"0x{x:02x}u8" for x in b)+"]" for b in bs]
        ar=["&["+", ".join(f"0x{x:02x}u8" for x in b)+"]" for b in bs]
        wit=" ".join(f"assert(r@[{k}]@ =~= {q});" for k,q in enumerate(sq))
        return (f"pub open spec fn {n}__(b: Seq<u8>) -> bool {{ {' || '.join('b == '+q for q in sq) or 'false'} }}\npub open spec fn {n}__p() -> spec_fn(Seq<u8>) -> bool {{ |b: Seq<u8>| {n}__(b) }}\n"
            f"pub exec const {n}: &'static [&'static [u8]] ensures r_list({n}@, {n}__p()) {{ let r: &'static [&'static [u8]] = &[{', '.join(ar)}]; proof {{ reveal(r_list); }} assert(r@.len() == {len(bs)}); {wit} r }}\n")
    for o_ in opts:
        m=re.match(r"sub `(.*)` => `(.*)`$",o_)
        if m:
            pat=[t.s for t in lex(m.group(1))]; k=0; hit=0
            while k+len(pat)<=len(ts):
                if [t.s for t in ts[k:k+len(pat)]]==pat:
                    nt=[Tok(t.k,t.s,0,0) for t in lex(m.group(2))]; ts=ts[:k]+nt+ts[k+len(pat):]; k+=len(nt); hit+=1
                else: k+=1
            if not hit: raise Lost(f"{name}: sub `{m.group(1)}` not found")
    if kind=="const" and any(o_.startswith("fn ") for o_ in opts):
        # `const N: T = E;` => `fn N() -> (r: T) ensures ..  { E }`
        spec=[o_[3:] for o_ in opts if o_.startswith("fn ")][0]
        prf="".join("proof { "+o_[6:]+" } " for o_ in opts if o_.startswith("proof "))
        eq=[k for k,t in enumerate(ts) if is_p(t,"=")][0]
        ty=re.sub(r"&\s*(?=\[)","&'static ",render(generic_rewrite(u,ts[3:eq]))); ex=render(generic_rewrite(u,[t for t in ts[eq+1:] if not is_p(t,";")]))
        m=re.match(r"&'static\s*\[(.*)\]$",ty.strip())
        if m and ex.lstrip().startswith("&"): ty=f"Vec<{m.group(1)}>"; ex="vec!"+ex.lstrip()[1:].lstrip()   # a borrowed array literal becomes an owned list
        return f"pub fn {name}() -> (r: {ty}) {spec}\n{{ {prf}{ex} }}\n"
    out=generic_rewrite(u,ts)
    # fields/variants: make pub
    t=render(out)
    if kind=="struct":
        # make every field public (drop existing pub first)
        o=[x for x in out if x[0]!="pub"]
        res=[];d=0;k=0
        bi=[k for k,(x,_) in enumerate(o) if x in("{","(")]
        if bi:
            b0=bi[0]; d=0; expect=True; an=0
            for k,(x,tk) in enumerate(o):
                if k>b0 and d==1 and expect and x not in("}",")"):
                    res.append(("pub",None)); expect=False
                if x in("{","(","["): d+=1; expect=(k==b0)
                elif x in("}",")","]"): d-=1
                elif x=="<": an+=1
                elif x==">": an-=1
                res.append((x,tk))
                if k>b0 and d==1 and an==0 and x==",": expect=True
            t=render(res)
    derive="".join("#["+o_+"]\n" for o_ in opts if o_.startswith(("derive","repr","verifier")))
    return derive+"pub "+t+"\n"

def process(repo,template,shimdir,vac=False):
    """returns (text, unit, linemap, lost list)"""
    u=Unit(repo); out=[]; lost=[]; spans=[]
    lines=open(template).read().split("\n")
    i=0
    body_marker=None
    def cur(): return sum(x.count("\n")+1 for x in out)+1
    while i<len(lines):
        l=lines[i]
        st=l.strip()
        if st.startswith("//@include"):
            nm=st.split()[1]
            if nm.endswith(".vrs"):
                lines[i:i+1]=open(os.path.join(os.path.dirname(template),nm)).read().rstrip("\n").split("\n"); continue
            inc=os.path.join(shimdir,nm); out.append(open(inc).read().rstrip("\n"))
            i+=1; continue
        if st.startswith("//@bconsts"):
            out.append("@@BCONSTS@@"); i+=1; continue
        if st.startswith("//@item"):
            a=st.split(None,3)  # //@item file kind name [opts]
            rest=a[3]; nm,_,op=rest.partition(" | ")
            try:
                out.append(build_item(u,a[1],a[2],nm.strip(),[o.strip() for o in op.split(" | ")] if op else []))
            except Lost as e: lost.append(("item "+rest,str(e))); out.append("// LOST")
            i+=1; continue
        if st.startswith("//@stub"):
            # one line: the contract as it stands
            a=st.split(None,3); i+=1
            try: out.append(build_stub(u,os.path.dirname(template),a[1],a[2],a[3],[]))
            except Lost as e: lost.append((a[3],str(e))); out.append("// LOST "+a[3])
            continue
        if st.startswith("//@fn"):
            a=st.split(None,2); dirs=[]; i+=1
            curd=None
            while lines[i].strip()!="//@end":
                s=lines[i].strip()
                if s.startswith("//@"):
                    d,_,arg=s[3:].partition(" "); curd=[d,arg.strip(),""]; dirs.append(curd)
                else:
                    if curd is None:
                        if s: raise SystemExit(f"{template}:{i+1}: text before directive")
                    else: curd[2]+=lines[i]+"\n"
                i+=1
            i+=1
            if vac:
                # hide() has to stay at the head of the body
                for d in dirs:
                    if d[0]=="at" and d[1]=="start": d[2]=re.sub(r"\bhide\([^()]*\);","",d[2])
                dirs.append(["at","start","assert(false);\n"])
            try:
                t,info=build_fn(u,a[1],a[2],dirs)
                s0=cur(); out.append(t); spans.append((s0,cur()-1,info))
            except Lost as e: lost.append((a[2],str(e))); out.append("// LOST "+a[2])
            continue
        out.append(l); i+=1
    text="\n".join(out)
    bc=u.emit_bconsts()
    # keep line numbers: byte constants are emitted on one line each at the end
    if "@@BCONSTS@@" in text:
        text=text.replace("@@BCONSTS@@","")+"\nverus! {\n"+bc+"\n}\n"
    return text,u,spans,lost

if __name__=="__main__":
    repo=os.environ.get("REPO","/repo")
    t,u,sp,lost=process(repo,sys.argv[1],os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","shim"))
    print(t)
    if lost: print(lost,file=sys.stderr)
