#!/usr/bin/env python3
"""Writes shapes/src/gen.rs: every placement of component markers up to three components (three field layouts),
selected larger ones, structures without a state of their own, and every connection list."""
import itertools, os
OUT=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'shapes/src/gen.rs')
KIND={'Use':['Nd','Ov','Dp','Nd'],'Save':['Sv','Gr','Nd','Dp'],'No':['Nd','Sv','Ov','Gr'],'Both':['Nd','Ov','Dp','Nd']}
ATTR={'Use':['#[use_state]'],'Save':['#[save_state]'],'No':[],'Both':['#[use_state]','#[save_state]']}
out=["// generated by tools/gen_shapes.py\nuse crate::comps::{Dp, Gr, Mark, Nd, Ov, Shape, St, Sv};\nuse crate::shape;\nuse dess::prelude::*;\nuse serde::{Deserialize, Serialize};\n"]
sys_names=[];grp_names=[]
# a body that couples what contributes, through the fields directly
def body(comps,layout):
    lines=["self.reset_derivs();","let t = self.state.time;"]
    use=[c for c in comps if c[1] in('Use','Both')]
    for k,(f,m,ty) in enumerate(use):
        lines.append(f"self.{f}.step_deriv(-0.5 * self.{f}.state() + 0.125 * t + {0.1*(k+1):.1f} * self.par);")
    for a,b in zip(use,use[1:]):
        lines.append(f"self.{a[0]}.step_deriv(0.25 * self.{b[0]}.state());")
    return "\n        ".join(lines)
def emit(name,marks,layout,system,rot):
    # names that contain those of the reserved fields, and some that do not sort as declared
    kw=['in','type','match','loop','move','use','where','ref','mod','fn','as','if']
    raw=lambda k:"r#"+(kw[k] if k<len(kw) else f"raw{k}")
    one=lambda k:[f"state_{k}",f"z{99-k}",f"history_{k}",f"a{k}",f"_c{k}",raw(k),f"Cap{k}",f"größe{k}"][(k+rot)%8]
    two=lambda k:[f"tank{k}_history",f"b{99-k}_state",f"t_report_{k}",f"y{99-k}",f"__p{k}",raw(k),f"solver_type{k}",f"new{k}"][(k+rot)%8]
    nm=[lambda k:f"c{k}",one,two][layout]
    comps=[(nm(k),m,KIND[m][(k+rot)%4]) for k,m in enumerate(marks)]
    def fld(c,doc):
        a=list(ATTR[c[1]])
        if doc: a=["/// a component"]+a if layout!=1 else a+["/// a component"]
        return a+[f"pub {c[0]}: {c[2]},"]
    cf=[fld(c,(k+layout)%2==0) for k,c in enumerate(comps)]
    own={'solver':["pub solver_type: SolverTypes,"],'rep':["pub t_report: Vec<f64>,"],'st':["pub state: SystemState,"],'hi':["pub history: SystemStateHistoryVec,"],'par':["pub par: f64,"],'tag':["pub tag: String,"]}
    own['tag']+=["pub old_history: Vec<f64>,","pub state_note: f64,"]
    own['par']+=["pub history_kept: bool,","pub _hidden: f64,","pub r#yield: Vec<f64>,","pub opt: Option<f64>,"]
    own['tag']+=["#[serde(default)]","pub pair: (f64, bool),","pub(crate) arr: [f64; 3],","#[serde(skip)]","pub cached: f64,"]
    own['rep']+=["/// nested","nested: Vec<Vec<f64>>,","pub time: f64,","pub i: usize,"]
    own['rep']=["pub boxed: Option<Box<f64>>,"]+own['rep'] if system else own['rep']
    own['tag']+=["pub dt: f64,","pub spare_state: St,","pub map: std::collections::BTreeMap<String, f64>,","pub r#in_use: u8,"]
    if system:
        if layout==0: order=[own['solver'],own['par']]+cf+[own['tag'],own['rep'],own['st'],own['hi']]
        elif layout==1: order=[own['hi'],own['st'],own['tag']]+cf+[own['par'],own['rep'],own['solver']]
        else:
            rest=[own['st'],own['rep'],own['par'],own['hi'],own['solver'],own['tag']]
            order=[]
            for k in range(max(len(cf),len(rest))):
                if k<len(rest): order.append(rest[k])
                if k<len(cf): order.append(cf[k])
    else:
        order=[own['par']]+cf+[own['tag']] if layout==0 else cf[:1]+[own['tag'],own['par']]+cf[1:]
    attrs=[]
    if system:
        sv="#[solver(\n    fn update_derivs(&mut self) {\n        "+body(comps,layout)+"\n    }\n)]"
        if layout==0: attrs=[sv,"#[derive(HistoryMethods, BareClone, Default)]","#[common_derives]"]
        elif layout==1: attrs=["#[common_derives]","#[derive(Default)]",sv,"#[derive(BareClone, HistoryMethods)]"]
        else: attrs=["#[derive(HistoryMethods)]","#[pyo3_api]",sv,"#[derive(Default, BareClone)]","#[common_derives]"]
        if layout==2: order=[["#[skip_get]"]+o if o==own['solver'] else o for o in order]
    else:
        attrs=["#[derive(HistoryMethods, BareClone, Default)]","#[common_derives]"]
    out.append("\n".join(attrs)+f"\npub struct {name} {{\n    "+"\n    ".join(l for o in order for l in o)+"\n}")
    # declaration order of the components is c0, c1, ...
    out.append(f"shape!({name}, [{', '.join(c[0] for c in comps)}], [{', '.join(c[1] for c in comps)}], sys={'true' if system else 'false'});")
    (sys_names if system else grp_names).append(name)
S={'Use':'U','Save':'S','No':'N','Both':'B'}
M=['Use','Save','No']
for n in range(0,4):
    for k,marks in enumerate(itertools.product(M,repeat=n)):
        lays=[0,1,2] if n<=2 else [k%3,(k+1)%3]
        for l in lays:
            emit("Y"+"".join(S[m] for m in marks)+f"L{l}",marks,l,True,k+l)
big=[("Both",),("Both","Use"),("Save","Both"),("Use","No","Both"),("Use",)*4,("Use","Save","Use","No","Use"),("No","Use","Save","Save","Use","Use"),("Use",)*8,("Save",)*5,("No","No","Use","No"),("Use","No","Save","Use","No","Save","Use","No","Save","Use"),("Use","Save","No","Use")*5,("Use",)*34]
for k,b in enumerate(big): emit("Z"+"".join(S[m] for m in b)+f"L{k%3}",b,k%3,True,k)
for n in range(1,4):
    for k,marks in enumerate(itertools.product(M,repeat=n)):
        if all(m=='No' for m in marks): continue
        emit("G"+"".join(S[m] for m in marks),marks,k%2,False,k)
for k,b in enumerate([("Both",),("Both","No","Save"),("Save",)*6,("No","Use","No","Save","No")]): emit("H"+"".join(S[m] for m in b),b,k%2,False,k+1)
out.append("pub fn systems() -> Vec<fn() -> Box<dyn Shape>> {\n    vec!["+", ".join(f"|| Box::new({n}::default())" for n in sys_names)+"]\n}")
out.append("pub fn groups() -> Vec<fn() -> Box<dyn Shape>> {\n    vec!["+", ".join(f"|| Box::new({n}::default())" for n in grp_names)+"]\n}")
open(OUT,'w').write("\n\n".join(out)+"\n")
# networks
P=['a','b','c','r']; pairs=[(x,y) for x in P for y in P if x!=y]
lists=[l for n in (1,2,3) for l in itertools.product(pairs,repeat=n)]
# longer ones: rings, stars, parallel bundles, chains with repeats
lists+=[(('a','b'),('b','c'),('c','r'),('r','a')),(('b','a'),('b','a'),('a','b'),('b','a')),(('r','a'),('r','b'),('r','c'),('a','b'),('b','c'),('c','a')),(('c','a'),('a','c'),('b','r'),('r','b'),('c','b'))]
lists+=[tuple(pairs),tuple((P[k%4],P[(k+1+k//4)%4]) for k in range(14) if k%4!=(k+1+k//4)%4),(('a','b'),)*9,tuple(pairs[::-1])+(('b','a'),('c','r'))]
W=14
assert max(len(l) for l in lists)<=W
o=["// generated by tools/gen_shapes.py\nuse crate::nets::*;\nuse dess::prelude::*;\n"]
tab=[]
for k,l in enumerate(lists):
    con=", ".join(f"({x}, {y}, q{i})" for i,(x,y) in enumerate(l))
    o.append(f"fn n{k}(s: &mut Net) {{ connect_states!(s, {con}); update_derivs!(s, {con}); }}")
    tab.append(f"(n{k}, &[{', '.join(f'({P.index(x)}, {P.index(y)})' for x,y in l)}])")
o.append("pub static NETS: &[(fn(&mut Net), &[(usize, usize)])] = &[\n"+",\n".join(tab)+"\n];")
open(OUT.replace('gen.rs','gen_nets.rs'),'w').write("\n".join(o)+"\n")
print(len(sys_names),len(grp_names),len(lists))
