package main

// Drivers for the dynamically typed targets: Python, CommonJS, ES modules.

import (
	"fmt"
	"strings"
)

// ---------------- Python ----------------

const pyRuntime = `
import sys, struct, importlib
TK=[];TI=0
def tok():
    global TI
    if TI>=len(TK): return ""
    TI+=1
    return TK[TI-1]
def rdI(): return int(tok())
def rdBool(): return tok()!="0"
def rdF32():
    s=tok()
    return float('nan') if s=="nan" else struct.unpack('<f',struct.pack('<I',int(s)))[0]
def rdF64():
    s=tok()
    return float('nan') if s=="nan" else struct.unpack('<d',struct.pack('<Q',int(s)))[0]
def rdB():
    s=tok()
    return b"" if s in("-","") else bytes.fromhex(s)
def rdS(): return rdB().decode('utf-8')
OUT=[]
def wr(x): OUT.append(str(x))
def wrI(v): OUT.append(str(int(v)))
def wrF32(v): OUT.append("nan" if v!=v else str(struct.unpack('<I',struct.pack('<f',v))[0]))
def wrF64(v): OUT.append("nan" if v!=v else str(struct.unpack('<Q',struct.pack('<d',v))[0]))
def wrB(b):
    b=bytes(b)
    OUT.append(b.hex() if b else "-")
def wrS(s): wrB(s.encode('utf-8'))
def wrE(v): OUT.append(str(v.value) if hasattr(v,'value') else str(v))
def ret(r): return r[1] if r[0] else -1
def run(c,h):
    mk,st,pt,y=h
    if c=='E':
        start,pad,fill=rdI(),rdI(),rdI()
        o=mk(); st(o); es=o.encode_size(); b=bytearray([fill])*(start+es+pad)
        r=o.encode(memoryview(b)[start:]); wr(es); wr(r); wrB(b); wrB(o.encode()); pt(o)
    elif c=='D':
        start,pad,fill=rdI(),rdI(),rdI(); d=rdB(); b=bytearray([fill])*start+bytearray(d)+bytearray([fill])*pad; cp=bytes(b)
        o=mk(); v=memoryview(b)[start:]; ds=o.decode_size(v); r=ret(o.decode(v)); wr(ds); wr(r); wr(1 if bytes(b)==cp else 0)
        if r<0: OUT.append("-")
        else: pt(o)
    elif c=='P':
        d=rdB()
        for k in range(len(d)+1):
            o=mk(); OUT.append("%d:%d"%(o.decode_size(d[:k]),ret(o.decode(d[:k]))))
    elif c=='R':
        d1=rdB(); d2=rdB(); o=mk(); r1=ret(o.decode(d1)); r2=ret(o.decode(d2)); wr(r1); wr(r2)
        if r2<0: OUT.append("-")
        else: pt(o)
    elif c=='X':
        d=bytearray(rdB()); f=rdI(); o=mk(); r=ret(o.decode(d))
        for i in range(len(d)): d[i]=f
        wr(r)
        if r<0: OUT.append("-")
        else: pt(o)
    elif c=='T':
        d=rdB(); o=mk(); r=ret(o.decode(d)); wr(r)
        if r<0: OUT.append("-")
        else: wrB(o.encode())
    elif c=='Y':
        o=mk(); st(o); y(o)
    elif c=='Z':
        o=mk(); wr(1 if o.dynamic() else 0); wr(o.size())
def main():
    global TK,TI
    for l in sys.stdin:
        TK=l.split(); TI=0
        if not TK: continue
        del OUT[:]
        c=tok(); h=HS[rdI()]
        try: run(c,h)
        except BaseException as e:
            del OUT[:]
            OUT.append("EXC %s %s"%(type(e).__name__,str(e).replace("\n"," ")))
        sys.stdout.write(" ".join(OUT)+"\n"); sys.stdout.flush()
`

type pyD struct {
	e   *emitter
	mod func(f *File) string
}

func (g *pyD) rd(t *Type) string {
	switch t.K {
	case KBool:
		return "rdBool()"
	case KInt:
		return "rdI()"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		return g.mod(t.En.File) + "." + t.En.Name + "(rdI())"
	case KString:
		return "rdS()"
	case KBytes:
		return "rdB()"
	case KStruct:
		return "mk_" + t.St.Name + "()"
	case KArray:
		return fmt.Sprintf("[%s for _ in range(%d)]", g.rd(t.Elem), t.N)
	}
	return "?"
}

func (g *pyD) put(t *Type, rv, ind string, d int) {
	switch t.K {
	case KArray:
		g.e.p("%sfor i%d in range(%d):", ind, d, t.N)
		g.put(t.Elem, fmt.Sprintf("%s[i%d]", rv, d), ind+"    ", d+1)
	case KStruct:
		g.e.p("%sput_%s(%s)", ind, t.St.Name, rv)
	case KString:
		g.e.p("%swrS(%s)", ind, rv)
	case KBytes:
		g.e.p("%swrB(%s)", ind, rv)
	case KBool, KInt:
		g.e.p("%swrI(%s)", ind, rv)
	case KFloat:
		g.e.p("%swrF%d(%s)", ind, t.W, rv)
	case KEnum:
		g.e.p("%swrE(%s)", ind, rv)
	}
}

// mods: python module name -> alias
func emitPy(p *Program, root string, mods [][2]string, mod func(f *File) string, ft Feat) string {
	e := &emitter{}
	g := &pyD{e, mod}
	e.p(pyRuntime)
	e.p("sys.path.insert(0,%q)", root)
	for _, m := range mods {
		e.p("%s=importlib.import_module(%q)", m[1], m[0])
	}
	all := p.AllStructs()
	for _, s := range all {
		cls := mod(s.File) + "." + s.Name
		e.p("def mk_%s():\n    o=%s()\n    set_%s(o)\n    return o", s.Name, cls, s.Name)
		e.p("def set_%s(o):\n    pass", s.Name)
		if !ft.Minimal {
			for _, f := range s.Vals() {
				e.p("    o.%s=%s", snake(f.Words), g.rd(f.T))
			}
		}
		e.p("def put_%s(o):\n    pass", s.Name)
		if !ft.Minimal {
			for _, f := range s.Vals() {
				g.put(f.T, "o."+snake(f.Words), "    ", 0)
			}
		}
		e.p("def y_%s(o):", s.Name)
		e.p("    for q in range(rdI()):\n        c=tok(); k=rdI()")
		for _, en := range enumsOf(s) {
			cl := mod(en.File) + "." + en.Name
			for _, m := range en.Members {
				e.p("        if c=='n': wr(%s.%s.value); wr(%s(%s.%s.value).value)", cl, m.Name, cl, cl, m.Name)
			}
		}
		if !ft.Minimal {
			for i, f := range s.Vals() {
				e.p("        if c=='f' and k==%d: o.%s=%s", i, snake(f.Words), g.rd(f.T))
			}
		}
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if !m.Get {
					e.p("        if c=='c' and k==%d: o.%s=%s", i*100+j, snake(m.W), g.rd(m.Ret))
				}
			}
		}
		e.p("    put_%s(o); wr('~')", s.Name)
		if !ft.Minimal {
			e.p("    put_%s(o)", s.Name)
		}
		e.p("    wr('~')")
		for _, f := range s.Vals() {
			for _, m := range f.Methods {
				if m.Get {
					g.put(m.Ret, "o."+snake(m.W), "    ", 0)
				}
			}
		}
	}
	e.p("HS=[")
	for _, s := range all {
		e.p("(%s.%s,set_%s,put_%s,y_%s),", mod(s.File), s.Name, s.Name, s.Name, s.Name)
	}
	e.p("]\nmain()")
	return e.sb.String()
}

// ---------------- JavaScript ----------------

const jsRuntime = `
let TK=[],TI=0,OUT=[];
const tok=()=>TI<TK.length?TK[TI++]:"";
const rdN=()=>Number(tok()), rdG=()=>BigInt(tok()), rdBool=()=>tok()!=="0";
const fb=new DataView(new ArrayBuffer(8));
const rdF32=()=>{const s=tok(); if(s==="nan")return NaN; fb.setUint32(0,Number(s)); return fb.getFloat32(0);};
const rdF64=()=>{const s=tok(); if(s==="nan")return NaN; fb.setBigUint64(0,BigInt(s)); return fb.getFloat64(0);};
const rdB=()=>{const s=tok(); if(s==="-"||s==="")return new Uint8Array(0); return new Uint8Array(Buffer.from(s,"hex"));};
const rdS=()=>Buffer.from(rdB()).toString("utf8");
const wr=x=>OUT.push(String(x));
const wrI=v=>OUT.push(Object.is(v,-0)?"0":String(v));
const wrF32=v=>{ if(Number.isNaN(v)){wr("nan");return;} fb.setFloat32(0,v); wr(fb.getUint32(0)); };
const wrF64=v=>{ if(Number.isNaN(v)){wr("nan");return;} fb.setFloat64(0,v); wr(fb.getBigUint64(0)); };
const wrB=b=>{ wr(b.length?Buffer.from(b).toString("hex"):"-"); };
const wrS=s=>wrB(Buffer.from(s,"utf8"));
const wrE=(v,E)=>wr(typeof v==="string"?E[v]:v);
const wrBool=v=>wr(typeof v==="boolean"?(v?1:0):v);
function mkbuf(n,fill){ const b=new Uint8Array(n); b.fill(fill); return b; }
function run(c,h){
  const [C,st,pt,y]=h; const mk=()=>new C();
  switch(c){
  case "E": { const start=rdN(),pad=rdN(),fill=rdN(); const o=mk(); st(o); const es=o.encode_size(); const b=mkbuf(start+es+pad,fill); const r=start===0&&pad===0?o.encode(b):o.encode(b,start); wr(es); wr(r); wrB(b); wrB(o.encode()); pt(o); break; }
  case "D": { const start=rdN(),pad=rdN(),fill=rdN(); const d=rdB(); const b=mkbuf(start+d.length+pad,fill); b.set(d,start); const cp=b.slice(); const o=mk(); const ds=C.decode_size(b,start); const r=o.decode(b,start); wr(ds); wr(r); wr(Buffer.compare(Buffer.from(b),Buffer.from(cp))===0?1:0); if(r<0) wr("-"); else pt(o); break; }
  case "P": { const d=rdB(); for(let k=0;k<=d.length;k++){ const b=d.slice(0,k); const o=mk(); wr(C.decode_size(b)+":"+o.decode(b)); } break; }
  case "R": { const d1=rdB(), d2=rdB(); const o=mk(); const r1=o.decode(d1), r2=o.decode(d2); wr(r1); wr(r2); if(r2<0) wr("-"); else pt(o); break; }
  case "X": { const d=rdB(); const f=rdN(); const o=mk(); const r=o.decode(d); d.fill(f); wr(r); if(r<0) wr("-"); else pt(o); break; }
  case "T": { const d=rdB(); const o=mk(); const r=o.decode(d); wr(r); if(r<0) wr("-"); else wrB(o.encode()); break; }
  case "Y": { const o=mk(); st(o); y(o); break; }
  case "Z": { wr(C.dynamic()?1:0); wr(C.size()); break; }
  }
}
async function main(HS){
  const lines=require("fs").readFileSync(0,"utf8").split("\n"); const o=[];
  for(const l of lines){ TK=l.split(" ").filter(x=>x!==""); TI=0; if(!TK.length) continue; OUT=[]; const c=tok(); const h=HS[rdN()];
    try { run(c,h); } catch(e){ OUT=["EXC "+String(e).replace(/\n/g," ")]; }
    o.push(OUT.join(" ")); }
  require("fs").writeSync(1,""); process.stdout.write(o.join("\n")+"\n");
}
`

type jsD struct {
	e   *emitter
	ref func(f *File, name string) string
}

func (g *jsD) rd(t *Type) string {
	switch t.K {
	case KBool:
		return "rdBool()"
	case KInt:
		if t.W == 64 {
			return "rdG()"
		}
		return "rdN()"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		if t.En.Bits > 53 {
			return "rdN()"
		}
		return "rdN()"
	case KString:
		return "rdS()"
	case KBytes:
		return "rdB()"
	case KStruct:
		return "mk_" + t.St.Name + "()"
	case KArray:
		return fmt.Sprintf("Array.from({length:%d},()=>%s)", t.N, g.rd(t.Elem))
	}
	return "?"
}

func (g *jsD) put(t *Type, rv string, d int) {
	switch t.K {
	case KArray:
		g.e.p("for(let i%d=0;i%d<%d;i%d++){", d, d, t.N, d)
		g.put(t.Elem, fmt.Sprintf("%s[i%d]", rv, d), d+1)
		g.e.p("}")
	case KStruct:
		g.e.p("put_%s(%s);", t.St.Name, rv)
	case KString:
		g.e.p("wrS(%s);", rv)
	case KBytes:
		g.e.p("wrB(%s);", rv)
	case KBool:
		g.e.p("wrBool(%s);", rv)
	case KInt:
		g.e.p("wrI(%s);", rv)
	case KFloat:
		g.e.p("wrF%d(%s);", t.W, rv)
	case KEnum:
		g.e.p("wrE(%s,%s);", rv, g.ref(t.En.File, t.En.Name))
	}
}

// head: statements that import the generated modules (CJS or ESM).
func emitJS(p *Program, head string, ref func(f *File, name string) string, ft Feat) string {
	e := &emitter{}
	g := &jsD{e, ref}
	e.sb.WriteString(head)
	e.p("%s", jsRuntime)
	all := p.AllStructs()
	for _, s := range all {
		e.p("function mk_%s(){ const o=new (%s)(); set_%s(o); return o; }", s.Name, ref(s.File, s.Name), s.Name)
		e.p("function set_%s(o){", s.Name)
		for _, f := range s.Vals() {
			e.p("o.%s=%s;", camel(f.Words), g.rd(f.T))
		}
		e.p("}\nfunction put_%s(o){", s.Name)
		for _, f := range s.Vals() {
			g.put(f.T, "o."+camel(f.Words), 0)
		}
		e.p("}\nfunction y_%s(o){", s.Name)
		e.p("for(let n=rdN();n>0;n--){ const c=tok(); const k=rdN();")
		for _, en := range enumsOf(s) {
			cl := ref(en.File, en.Name)
			for _, m := range en.Members {
				e.p("if(c==='n'){ wr(%s.%s); wr(%s[%s[%s.%s]]); }", cl, m.Name, cl, cl, cl, m.Name)
			}
		}
		e.p("if(c==='f') switch(k){")
		for i, f := range s.Vals() {
			e.p("case %d: o.%s=%s; break;", i, camel(f.Words), g.rd(f.T))
		}
		e.p("}\nif(c==='c') switch(k){")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if !m.Get {
					e.p("case %d: o.%s=%s; break;", i*100+j, camel(m.W), g.rd(m.Ret))
				}
			}
		}
		e.p("}}")
		e.p("put_%s(o); wr('~');", s.Name)
		if !ft.Minimal {
			e.p("put_%s(o);", s.Name)
		}
		e.p("wr('~');")
		for _, f := range s.Vals() {
			for _, m := range f.Methods {
				if m.Get {
					g.put(m.Ret, "o."+camel(m.W), 0)
				}
			}
		}
		e.p("}")
	}
	e.p("main([")
	for _, s := range all {
		e.p("[%s,set_%s,put_%s,y_%s],", ref(s.File, s.Name), s.Name, s.Name, s.Name)
	}
	e.p("]);")
	return e.sb.String()
}

func jsPath(pkg string) string { return strings.ReplaceAll(pkg, ".", "/") + ".bb.js" }
