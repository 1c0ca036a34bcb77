#!/usr/bin/env python3
"""Writes harness/src/checks/derive_types.rs: a family of types deriving SsbhWrite with models of their declared layout."""
import os, itertools
out=[];reg=[];n=[0]
def attr(rotate=0,**kw):
    """#[ssbhwrite(..)] for the given options, as one list or as separate attributes."""
    items=[(k,v) for k,v in kw.items() if v is not None and k!="repr"]
    if items: 
        r=rotate%len(items); items=items[r:]+items[:r]
    items=[f'{k} = {("b"+chr(34)+v+chr(34)) if k=="magic" else v}' for k,v in items]
    a=[]
    if kw.get("repr"): a.append(f'repr({kw["repr"]})')
    if not items: pass
    elif rotate%2: a+=items
    else: a.append(", ".join(items))
    return " ".join(f"#[ssbhwrite({x})]" for x in a)
def P_b(n): return f"P::B(vec![0; {n}])"
def tail(o):
    t=[]
    if o.get("pad_after"): t.append(P_b(o["pad_after"]))
    if o.get("align_after"): t.append(f'P::End({o["align_after"]})')
    return t
def push(ps): return "".join(f" p.push({x});" for x in ps)
cnt=[0]
def field(kind,acc,o):
    return f" p.extend({acc}.pieces());"+push(tail(o))
def emit(label,decl,pieces,make,o,generics="",targs="",inst="",bounds="",repr_=None,k=None,extra=""):
    """decl uses NAME; targs e.g. <T>; inst e.g. <u16>."""
    n[0]+=1; name=f"T{n[0]}"
    cnt[0]+=1
    a=attr(cnt[0],pad_after=o.get("pad_after"),align_after=o.get("align_after"),alignment=o.get("alignment"),magic=o.get("magic"),repr=repr_)
    out.append(f"{extra}#[derive(SsbhWrite)]\n{a}\n{decl.replace('NAME',name)}")
    al=o.get("alignment")
    if al is None: al=f"std::mem::align_of::<{repr_ or 'Self'}>() as u64"
    mg=f' p.push(P::B(b"{o["magic"]}".to_vec()));' if o.get("magic") else ""
    out.append(f"""impl{generics} M for {name}{targs}{bounds} {{
    fn make(c: &mut Ctx) -> Self {{ {make} }}
    fn pieces(&self) -> Vec<P> {{ let mut p: Vec<P> = Vec::new();{mg} {pieces}{push(tail(o))} vec![P::Node(p)] }}
    fn align() -> u64 {{ {al} }}
}}
""")
    reg.append(f'check::<{name}{inst}>("{name}: {label}", k, <{name}{inst} as M>::align())')
    return name
def named(label,fields,o={},fo=None):
    fo=fo or [{}]*len(fields)
    d="struct NAME { "+" ".join(f"{attr(i,**f)} f{i}: {t}," for i,(t,f) in enumerate(zip(fields,fo)))+" }"
    ps="".join(field(t,f"self.f{i}",f) for i,(t,f) in enumerate(zip(fields,fo)))
    mk="Self { "+" ".join(f"f{i}: M::make(c)," for i in range(len(fields)))+" }"
    return emit(label,d,ps,mk,o)
def tup(label,fields,o={},fo=None):
    fo=fo or [{}]*len(fields)
    d="struct NAME("+" ".join(f"{attr(i+1,**f)} {t}," for i,(t,f) in enumerate(zip(fields,fo)))+");"
    ps="".join(field(t,f"self.{i}",f) for i,(t,f) in enumerate(zip(fields,fo)))
    mk="Self("+" ".join("M::make(c)," for _ in fields)+")"
    return emit(label,d,ps,mk,o)
def enum(label,variants,o={}):
    """variants: (kind 'n'/'t', fields, field options, variant options)"""
    d="enum NAME { ";ps="match self { ";mk=f"match c.choose({len(variants)}) {{ "
    for j,(kind,fs,fo,vo) in enumerate(variants):
        fo=fo or [{}]*len(fs)
        body="".join(field(t,f"v{i}",f) for i,(t,f) in enumerate(zip(fs,fo)))+push(tail(vo))
        pat=str(j) if j<len(variants)-1 else "_"
        if kind=='n':
            d+=f"{attr(j,**vo)} V{j} {{ "+" ".join(f"{attr(i,**f)} v{i}: {t}," for i,(t,f) in enumerate(zip(fs,fo)))+" }, "
            ps+=f"Self::V{j} {{ "+", ".join(f"v{i}" for i in range(len(fs)))+f" }} => {{ {body} }} "
            mk+=f"{pat} => Self::V{j} {{ "+" ".join(f"v{i}: M::make(c)," for i in range(len(fs)))+" }, "
        else:
            d+=f"{attr(j,**vo)} V{j}("+" ".join(f"{attr(i,**f)} {t}," for i,(t,f) in enumerate(zip(fs,fo)))+"), "
            ps+=f"Self::V{j}("+", ".join(f"v{i}" for i in range(len(fs)))+f") => {{ {body} }} "
            mk+=f"{pat} => Self::V{j}("+" ".join("M::make(c)," for _ in fs)+"), "
    return emit(label,d+"}",ps+"}",mk+"}",o)
def repr_enum(label,r,vals,o={}):
    d=f"#[derive(Clone, Copy)] #[repr({r})] enum NAME {{ "+" ".join(f"V{i} = {v}," for i,v in enumerate(vals))+" }"
    d=d.replace("#[derive(Clone, Copy)] ","")
    ps="p.extend((match self { "+" ".join(f"Self::V{i} => {v}{r}," for i,v in enumerate(vals))+" }).pieces());"
    mk=f"match c.choose({len(vals)}) {{ "+" ".join(f"{i if i<len(vals)-1 else '_'} => Self::V{i}," for i in range(len(vals)))+" }"
    return emit(label,d,ps,mk,o,repr_=r,extra="#[derive(Clone, Copy)]\n")
def generic(label,o={}):
    return emit(label,"struct NAME<T: SsbhWrite> { x: T, y: u8 }"," p.extend(self.x.pieces()); p.extend(self.y.pieces());","Self { x: M::make(c), y: M::make(c) }",o,
      generics="<T: M + SsbhWrite>",targs="<T>",inst="<u16>")
def osum(o): return ",".join(f"{k}={v}" for k,v in o.items() if v is not None) or "-"
shapes={
 "named":lambda l,o:named(l,["u8","u16"],o),
 "tuple":lambda l,o:tup(l,["u8","u16"],o),
 "enum":lambda l,o:enum(l,[('t',["u8"],None,{}),('n',["u16","u8"],None,{})],o),
 "repr":lambda l,o:repr_enum(l,"u16",["0x1234","0","0xFFFF"],o),
 "generic":lambda l,o:generic(l,o),
 "pointers":lambda l,o:named(l,["SsbhString","u32"],o),
 "tuple pointers":lambda l,o:tup(l,["u8","RelPtr64<u16>"],o),
}
# struct level attributes
for s,f in shapes.items():
    for pad,al,at,mg in itertools.product([None,3],[None,4],[None,16],[None,"abc"]):
        o=dict(pad_after=pad,align_after=al,alignment=at,magic=mg)
        f(f"{s} {osum(o)}",o)
    for o in [dict(pad_after=0),dict(pad_after=1),dict(pad_after=16),dict(align_after=0),dict(align_after=1),dict(align_after=3),dict(align_after=8),dict(align_after=16),dict(alignment=1),dict(alignment=7),dict(magic="x"),dict(magic="abcdefgh")]:
        f(f"{s} {osum(o)}",o)
# field level attributes
f0=[{}]+[dict(pad_after=a,align_after=b) for a in [None,1,3] for b in [None,4] if a or b]
f1=[{},dict(pad_after=2),dict(align_after=8)]
for a,b in itertools.product(f0,f1):
    if not a and not b: continue
    l=f"fields {osum(a)} / {osum(b)}"
    named("named "+l,["u8","u16"],{},[a,b])
    tup("tuple "+l,["u8","u16"],{},[a,b])
    enum("enum "+l,[('t',["u8","u16"],[a,b],{}),('n',["u16","u8","u8"],[{},a,b],{})])
# variant level attributes
for a,b,c in itertools.product([None,2],[None,4],[None,3]):
    if a or b:
        vo=dict(pad_after=a,align_after=b)
        enum(f"variants {osum(vo)} in pad_after={c}",[('t',["u8"],None,vo),('n',["u8","u16"],None,vo),('t',["u16","u8"],[dict(pad_after=1),{}],vo),('t',["u8"],None,{})],dict(pad_after=c))
# field kinds
kinds=[p+s for p in "ui" for s in ["8","16","32","64","128"]]+["f32","f64"]+[f"NonZero{p}{s}" for p in "UI" for s in [8,16,32,64,128]]+["NonZeroUsize","()",
 "[u8; 3]","[u16; 0]","[u32; 1]","[[u8; 2]; 3]","Vec<u8>","Vec<u64>","Option<u8>","Option<u32>","Option<NonZeroU16>","Vec<Option<u16>>","Option<Vec<u8>>","Vec<Vec<u8>>","[Option<u8>; 2]","[Vec<u16>; 2]","&'static [u16]",
 "SsbhString","SsbhString8","SsbhByteBuffer","Option<SsbhString>","[SsbhString; 2]","Vec<SsbhString>",
 "RelPtr64<u8>","RelPtr64<u64>","RelPtr64<[u16; 3]>","RelPtr64<SsbhString>","RelPtr64<SsbhArray<u16>>","RelPtr64<RelPtr64<u8>>","Ptr64<u32>","Ptr64<[u8; 5]>","Ptr64<SsbhString>",
 "RelPtr64<Option<u32>>","RelPtr64<Option<SsbhString>>","Ptr64<Option<u64>>","RelPtr64<Vec<u16>>","RelPtr64<[Option<u32>; 2]>","RelPtr64<()>","Ptr64<NonZeroU32>","RelPtr64<Option<NonZeroU64>>","RelPtr64<SsbhByteBuffer>","Ptr64<SsbhArray<u32>>",
 "SsbhArray<u8>","SsbhArray<u16>","SsbhArray<SsbhString>","SsbhArray<SsbhArray<u8>>","SsbhArray<RelPtr64<u16>>","SsbhArray<Option<u16>>","SsbhArray<SsbhByteBuffer>",
 "CString<1>","CString<4>","Option<CString<1>>","Vec<CString<1>>","SsbhArray<CString<1>>","SsbhArray<CString<4>>","RelPtr64<CString<1>>","RelPtr64<CString<8>>","RelPtr64<Vec<CString<1>>>","Ptr64<CString<16>>",
 "Ptr16<u8>","Ptr16<u64>","Ptr32<SsbhString>","Ptr32<u16>","Ptr16<Ptr32<u16>>","Vec<Ptr16<u8>>","SsbhArray<Ptr16<u8>>","Option<Ptr32<u32>>"]
for kd in kinds:
    named(f"named with {kd}",["u8",kd,"u16"])
    if kd[0] in "SRPC&V(O[" or kd in("u8","u128"):
        tup(f"tuple with {kd}",[kd,kd])
        enum(f"enum with {kd}",[('t',[kd],None,{}),('n',["u8",kd],None,dict(pad_after=3))],{})
for r,v in [("u8",["0x7F","0","255"]),("u16",["0x1234","65535"]),("u32",["0x12345678","0","0xFFFFFFFF"]),("u64",["0x123456789ABCDEF0","0","0xFFFFFFFFFFFFFFFF"]),("i8",["-1","5","-128"]),("i16",["-2","0x7FFF"]),("i32",["-3","0","0x7FFFFFFF"]),("i64",["-4","1","0x7FFFFFFFFFFFFFFF"])]:
    e=repr_enum(f"repr {r}",r,v)
    named(f"named with {e} ({r})",["u8",e,"u16"],dict(pad_after=1))
    named(f"pointer to {e} ({r})",["u8",f"RelPtr64<{e}>",f"SsbhArray<{e}>","SsbhString"])
# nested types
inner=[("padded",named("inner padded",["u8","u16"],dict(pad_after=5))),("magic",tup("inner magic",["u16"],dict(magic="mg"))),("enum",enum("inner enum",[('t',["u8"],None,{}),('n',["u32","u8"],None,dict(pad_after=2))])),
 ("aligned",named("inner aligned",["u32"],dict(alignment=16))),("pointers",named("inner pointers",["u16","SsbhString","RelPtr64<u32>"])),("deep",tup("inner deep",["SsbhArray<SsbhString>","u8"],dict(pad_after=7,alignment=8))),
 ("repr",repr_enum("inner repr","u16",["1","2"],dict(pad_after=2,magic="r"))),("option",named("inner option",["u8","Option<u32>"]))]
for l,t in inner:
    for c in ["{}","[{}; 2]","Vec<{}>","Option<{}>","Vec<Option<{}>>","RelPtr64<{}>","RelPtr64<[{}; 2]>","RelPtr64<Vec<{}>>","Ptr64<{}>","SsbhArray<{}>","SsbhArray<RelPtr64<{}>>",
       "RelPtr64<Option<{}>>","RelPtr64<[Option<{}>; 2]>","RelPtr64<Option<Vec<{}>>>","Ptr64<Option<{}>>","SsbhArray<Option<{}>>","SsbhArray<Vec<{}>>","SsbhArray<[{}; 2]>","Ptr32<Vec<{}>>","RelPtr64<RelPtr64<{}>>"]:
        kd=c.format(t)
        named(f"nested {l} {kd}",["u8",kd,"SsbhString"],dict(pad_after=1))
    kd=f"SsbhArray<{t}>"
    tup(f"nested {l} {kd}",[t,kd,"u8",f"RelPtr64<{t}>"],dict(magic="qq"))
    enum(f"nested {l} {kd}",[('t',[t],None,{}),('n',[kd,t],None,{}),('t',["u8",f"RelPtr64<{t}>",t],[dict(pad_after=3),{},{}],{})],dict(magic="e"))
# position dependent types inside others
al=named("inner align",["u8"],dict(align_after=4))
for kd in [al,f"[{al}; 3]",f"Vec<{al}>",f"Option<{al}>"]:
    named(f"nested align {kd}",["u8",kd,"u16"])
# generics, lifetimes and constants
g=generic("inner generic",dict(pad_after=1))
for a in ["u8","SsbhString","Option<u16>","[u8; 2]",f"{g}<u16>"]:
    named(f"generic {g}<{a}>",[f"{g}<{a}>","u8",f"SsbhArray<{g}<{a}>>"])
emit("lifetime","struct NAME<'a> { x: u8, y: &'a [u16], z: SsbhString }"," p.extend(self.x.pieces()); p.extend(self.y.pieces()); p.extend(self.z.pieces());","Self { x: M::make(c), y: M::make(c), z: M::make(c) }",dict(pad_after=2),targs="<'static>",inst="<'static>")
emit("const","struct NAME<const N: usize>([u16; N], #[ssbhwrite(pad_after = 1)] u8);"," p.extend(self.0.pieces()); p.extend(self.1.pieces()); p.push(P::B(vec![0; 1]));","Self(M::make(c), M::make(c))",{},generics="<const N: usize>",targs="<N>",inst="<3>")
emit("where","struct NAME<A, B>(A, RelPtr64<B>) where A: SsbhWrite, B: SsbhWrite;"," p.extend(self.0.pieces()); p.extend(self.1.pieces());","Self(M::make(c), M::make(c))",dict(magic="w"),generics="<A: M + SsbhWrite, B: M + SsbhWrite>",targs="<A, B>",inst="<Option<u8>, SsbhArray<u8>>")
emit("generic enum","enum NAME<A: SsbhWrite> { V0(A), V1 { x: u8, y: A } }"," match self { Self::V0(a) => p.extend(a.pieces()), Self::V1 { x, y } => { p.extend(x.pieces()); p.extend(y.pieces()); } }","match c.choose(2) { 0 => Self::V0(M::make(c)), _ => Self::V1 { x: M::make(c), y: M::make(c) } }",dict(pad_after=1),generics="<A: M + SsbhWrite>",targs="<A>",inst="<SsbhString>")
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","harness","src","checks","derive_types.rs")
with open(path,"w") as f:
    f.write("//! Written by tools/gen_derive.py.\n#![allow(dead_code, unused_parens, clippy::all)]\n#![cfg_attr(rustfmt, rustfmt_skip)]\nuse super::derive::*;\nuse crate::explore::*;\nuse ssbh_lib::{CString, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};\nuse ssbh_write::SsbhWrite;\nuse std::num::*;\n\n")
    f.write("\n".join(out))
    f.write("\npub fn scenarios(t: bool) -> Vec<Scenario> {\n    let k = if t { 6 } else { 4 };\n    vec![\n")
    f.write("".join(f"        {r},\n" for r in reg))
    f.write("    ]\n}\n")
print(n[0],"types")
