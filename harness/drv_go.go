package main

import (
	"fmt"
	"strings"
)

const goRuntime = `
var tk []string
func tok() string { if len(tk)==0 { return "" }; s:=tk[0]; tk=tk[1:]; return s }
func rdI() int64 { v,_:=strconv.ParseInt(tok(),10,64); return v }
func rdU() uint64 { v,_:=strconv.ParseUint(tok(),10,64); return v }
func rdF32() float32 { s:=tok(); if s=="nan" { return math.Float32frombits(0x7fc00000) }; u,_:=strconv.ParseUint(s,10,64); return math.Float32frombits(uint32(u)) }
func rdF64() float64 { s:=tok(); if s=="nan" { return math.Float64frombits(0x7ff8000000000000) }; u,_:=strconv.ParseUint(s,10,64); return math.Float64frombits(u) }
func rdB() []byte { s:=tok(); if s=="-"||s=="" { return []byte{} }; b,_:=hex.DecodeString(s); return b }
var out strings.Builder
func wrI(v int64) { out.WriteString(strconv.FormatInt(v,10)); out.WriteByte(' ') }
func wrU(v uint64) { out.WriteString(strconv.FormatUint(v,10)); out.WriteByte(' ') }
func wrF32(v float32) { if v!=v { out.WriteString("nan "); return }; wrU(uint64(math.Float32bits(v))) }
func wrF64(v float64) { if v!=v { out.WriteString("nan "); return }; wrU(math.Float64bits(v)) }
func wrB(b []byte) { if len(b)==0 { out.WriteString("- "); return }; out.WriteString(hex.EncodeToString(b)); out.WriteByte(' ') }
func wrBool(b bool) { if b { wrU(1) } else { wrU(0) } }
type codec interface { EncodeSize() int; Encode() []byte; EncodeTo([]byte) int; DecodeSize([]byte) int; Decode([]byte) int; Dynamic() bool; Size() uint64 }
type H struct { mk func() codec; set, put, y func(codec) }
func run(line string) {
	defer func(){ if e:=recover(); e!=nil { out.Reset(); out.WriteString("EXC "+strings.ReplaceAll(fmt.Sprint(e),"\n"," ")) } }()
	tk = strings.Fields(line)
	if len(tk)==0 { return }
	c := tok(); h := HS[rdI()]
	switch c {
	case "E":
		start,pad,fill := int(rdU()),int(rdU()),byte(rdU())
		o:=h.mk(); h.set(o); es:=o.EncodeSize(); b:=make([]byte,start+es+pad); for i:=range b { b[i]=fill }
		r:=o.EncodeTo(b[start:]); wrI(int64(es)); wrI(int64(r)); wrB(b); wrB(o.Encode()); h.put(o)
	case "D":
		start,pad,fill := int(rdU()),int(rdU()),byte(rdU()); d:=rdB()
		b:=make([]byte,start+len(d)+pad); for i:=range b { b[i]=fill }; copy(b[start:],d); cp:=append([]byte{},b...)
		o:=h.mk(); ds:=o.DecodeSize(b[start:]); r:=o.Decode(b[start:]); wrI(int64(ds)); wrI(int64(r)); wrBool(bytes.Equal(b,cp)); if r<0 { out.WriteString("-") } else { h.put(o) }
	case "P":
		d:=rdB()
		for k:=0;k<=len(d);k++ { b:=make([]byte,k); copy(b,d); o:=h.mk(); fmt.Fprintf(&out,"%d:%d ",o.DecodeSize(b),o.Decode(b)) }
	case "R":
		d1,d2:=rdB(),rdB(); o:=h.mk(); r1:=o.Decode(d1); r2:=o.Decode(d2); wrI(int64(r1)); wrI(int64(r2)); if r2<0 { out.WriteString("-") } else { h.put(o) }
	case "X":
		d:=rdB(); f:=byte(rdU()); o:=h.mk(); r:=o.Decode(d); for i:=range d { d[i]=f }; wrI(int64(r)); if r<0 { out.WriteString("-") } else { h.put(o) }
	case "T":
		d:=rdB(); o:=h.mk(); r:=o.Decode(d); wrI(int64(r)); if r<0 { out.WriteString("-") } else { wrB(o.Encode()) }
	case "Y":
		o:=h.mk(); h.set(o); h.y(o)
	case "Z":
		o:=h.mk(); wrBool(o.Dynamic()); wrU(o.Size())
	}
}
func main() {
	rd := bufio.NewReaderSize(os.Stdin,1<<20); w := bufio.NewWriter(os.Stdout)
	for { l,err:=rd.ReadString('\n'); if strings.TrimSpace(l)!="" { out.Reset(); run(l); w.WriteString(out.String()); w.WriteByte('\n'); w.Flush() }; if err!=nil { break } }
}
`

type goD struct {
	e    *emitter
	qual func(f *File) string // package qualifier "g." for a file
}

func (g *goD) tname(t *Type) string {
	switch t.K {
	case KBool:
		return "bool"
	case KInt, KFloat:
		return t.Name()
	case KString:
		return "string"
	case KBytes:
		return "[]byte"
	case KEnum:
		return g.qual(t.En.File) + t.En.Name
	case KStruct:
		return g.qual(t.St.File) + t.St.Name
	case KArray:
		return fmt.Sprintf("[%d]%s", t.N, g.tname(t.Elem))
	}
	return "?"
}

func (g *goD) rd(t *Type) string {
	switch t.K {
	case KBool:
		return "(rdU()!=0)"
	case KInt:
		if t.Signed {
			return t.Name() + "(rdI())"
		}
		return t.Name() + "(rdU())"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		return g.tname(t) + "(rdU())"
	case KString:
		return "string(rdB())"
	case KBytes:
		return "rdB()"
	}
	return "?"
}

func (g *goD) set(t *Type, lv string, d int) {
	switch t.K {
	case KArray:
		g.e.p("for i%d:=0;i%d<%d;i%d++ {", d, d, t.N, d)
		g.set(t.Elem, fmt.Sprintf("%s[i%d]", lv, d), d+1)
		g.e.p("}")
	case KStruct:
		g.e.p("set_%s(&%s)", t.St.Name, lv)
	default:
		g.e.p("%s = %s", lv, g.rd(t))
	}
}

func (g *goD) put(t *Type, rv string, d int) {
	switch t.K {
	case KArray:
		g.e.p("for i%d:=0;i%d<%d;i%d++ {", d, d, t.N, d)
		g.put(t.Elem, fmt.Sprintf("%s[i%d]", rv, d), d+1)
		g.e.p("}")
	case KStruct:
		g.e.p("put_%s(&%s)", t.St.Name, rv)
	case KString:
		g.e.p("wrB([]byte(%s))", rv)
	case KBytes:
		g.e.p("wrB(%s)", rv)
	case KBool:
		g.e.p("wrBool(%s)", rv)
	case KInt:
		if t.Signed {
			g.e.p("wrI(int64(%s))", rv)
		} else {
			g.e.p("wrU(uint64(%s))", rv)
		}
	case KFloat:
		g.e.p("wrF%d(%s)", t.W, rv)
	case KEnum:
		g.e.p("wrU(uint64(%s))", rv)
	}
}

func emitGo(p *Program, imports map[string]string, qual func(f *File) string, ft Feat) string {
	e := &emitter{}
	g := &goD{e, qual}
	e.p("package main\nimport (\"bufio\"; \"bytes\"; \"encoding/hex\"; \"fmt\"; \"math\"; \"os\"; \"strconv\"; \"strings\"")
	for k, v := range imports {
		e.p("%s \"%s\"", k, v)
	}
	e.p(")")
	e.p(goRuntime)
	all := p.AllStructs()
	for _, s := range all {
		sn := qual(s.File) + s.Name
		e.p("func set_%s(o *%s) {", s.Name, sn)
		for _, f := range s.Vals() {
			g.set(f.T, "o."+pascal(f.Words), 0)
		}
		e.p("}\nfunc put_%s(o *%s) {", s.Name, sn)
		for _, f := range s.Vals() {
			g.put(f.T, "o."+pascal(f.Words), 0)
		}
		e.p("}\nfunc y_%s(o *%s) {", s.Name, sn)
		e.p("for n:=rdI();n>0;n-- { c:=tok(); k:=int(rdI()); _,_=c,k")
		if es := enumsOf(s); len(es) > 0 {
			e.p("if c==\"n\" {")
			for _, en := range es {
				for _, m := range en.Members {
					e.p("{ var v %s = %s; wrU(uint64(v)); wrU(uint64(v)) }", qual(en.File)+en.Name, qual(en.File)+m.Name)
				}
			}
			e.p("}")
		}
		if !ft.Minimal {
			e.p("if c==\"f\" { switch k {")
			for i, f := range s.Vals() {
				e.p("case %d: var v %s", i, g.tname(f.T))
				g.set(f.T, "v", 0)
				e.p("o.Set%s(v)", pascal(f.Words))
			}
			e.p("}}")
		}
		e.p("if c==\"c\" { switch k {")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if !m.Get {
					e.p("case %d: o.Set%s(%s)", i*100+j, pascal(m.W), g.rd(m.Ret))
				}
			}
		}
		e.p("}}}")
		e.p("put_%s(o); out.WriteString(\"~ \")", s.Name)
		if !ft.Minimal {
			for _, f := range s.Vals() {
				e.p("{ v := o.Get%s()", pascal(f.Words))
				g.put(f.T, "v", 0)
				e.p("}")
			}
		}
		e.p("out.WriteString(\"~ \")")
		for _, f := range s.Vals() {
			for _, m := range f.Methods {
				if m.Get {
					e.p("{ v := o.Get%s()", pascal(m.W))
					g.put(m.Ret, "v", 0)
					e.p("}")
				}
			}
		}
		e.p("}")
	}
	e.p("var HS = []H{")
	for _, s := range all {
		sn := qual(s.File) + s.Name
		e.p("{func() codec { return new(%s) }, func(c codec) { set_%s(c.(*%s)) }, func(c codec) { put_%s(c.(*%s)) }, func(c codec) { y_%s(c.(*%s)) }},", sn, s.Name, sn, s.Name, sn, s.Name, sn)
	}
	e.p("}")
	return e.sb.String()
}

// ---------------- Java ----------------

const javaRuntime = `
import java.io.*;
import java.util.*;
import java.nio.charset.StandardCharsets;
public class Drv {
  static StringTokenizer tk; static StringBuilder out = new StringBuilder();
  static String tok(){ return tk.hasMoreTokens()?tk.nextToken():""; }
  static long rdI(){ return Long.parseLong(tok()); }
  static long rdU(){ return Long.parseUnsignedLong(tok()); }
  static float rdF32(){ String s=tok(); if(s.equals("nan")) return Float.NaN; return Float.intBitsToFloat((int)Long.parseLong(s)); }
  static double rdF64(){ String s=tok(); if(s.equals("nan")) return Double.NaN; return Double.longBitsToDouble(Long.parseUnsignedLong(s)); }
  static byte[] rdB(){ String s=tok(); if(s.equals("-")||s.isEmpty()) return new byte[0]; byte[] b=new byte[s.length()/2]; for(int i=0;i<b.length;i++) b[i]=(byte)Integer.parseInt(s.substring(2*i,2*i+2),16); return b; }
  static String rdS(){ return new String(rdB(), StandardCharsets.UTF_8); }
  static void wrI(long v){ out.append(v).append(' '); }
  static void wrU(long v){ out.append(Long.toUnsignedString(v)).append(' '); }
  static void wrF32(float f){ if(f!=f){ out.append("nan "); return; } wrU(Float.floatToRawIntBits(f)&0xFFFFFFFFL); }
  static void wrF64(double f){ if(f!=f){ out.append("nan "); return; } wrU(Double.doubleToRawLongBits(f)); }
  static final char[] HX="0123456789abcdef".toCharArray();
  static void wrB(byte[] b){ if(b.length==0){ out.append("- "); return; } for(byte x:b) out.append(HX[(x>>4)&15]).append(HX[x&15]); out.append(' '); }
  static void wrS(String s){ wrB(s.getBytes(StandardCharsets.UTF_8)); }
  static abstract class H { abstract Object mk(); abstract void set(Object o); abstract void put(Object o); abstract void y(Object o); abstract int es(Object o); abstract byte[] enc(Object o); abstract int enc(Object o, byte[] d, int s); abstract int ds(Object o, byte[] d, int s); abstract int dec(Object o, byte[] d, int s); abstract boolean dyn(); abstract int size(); }
  static byte[] mkbuf(int n, int fill){ byte[] b=new byte[n]; Arrays.fill(b,(byte)fill); return b; }
  static void run(String c, H h){
    switch(c){
    case "E": { int start=(int)rdU(),pad=(int)rdU(),fill=(int)rdU(); Object o=h.mk(); h.set(o); int es=h.es(o); byte[] b=mkbuf(start+es+pad,fill); int r=h.enc(o,b,start); wrI(es); wrI(r); wrB(b); wrB(h.enc(o)); h.put(o); break; }
    case "D": { int start=(int)rdU(),pad=(int)rdU(),fill=(int)rdU(); byte[] d=rdB(); byte[] b=mkbuf(start+d.length+pad,fill); System.arraycopy(d,0,b,start,d.length); byte[] cp=b.clone(); Object o=h.mk(); int ds=h.ds(o,b,start); int r=h.dec(o,b,start); wrI(ds); wrI(r); wrU(Arrays.equals(b,cp)?1:0); if(r<0) out.append("-"); else h.put(o); break; }
    case "P": { byte[] d=rdB(); for(int k=0;k<=d.length;k++){ byte[] b=Arrays.copyOf(d,k); Object o=h.mk(); out.append(h.ds(o,b,0)).append(':').append(h.dec(o,b,0)).append(' '); } break; }
    case "R": { byte[] d1=rdB(), d2=rdB(); Object o=h.mk(); int r1=h.dec(o,d1,0), r2=h.dec(o,d2,0); wrI(r1); wrI(r2); if(r2<0) out.append("-"); else h.put(o); break; }
    case "X": { byte[] d=rdB(); int f=(int)rdU(); Object o=h.mk(); int r=h.dec(o,d,0); Arrays.fill(d,(byte)f); wrI(r); if(r<0) out.append("-"); else h.put(o); break; }
    case "T": { byte[] d=rdB(); Object o=h.mk(); int r=h.dec(o,d,0); wrI(r); if(r<0) out.append("-"); else wrB(h.enc(o)); break; }
    case "Q": { Object a=h.mk(), b=h.mk(); h.set(a); h.set(b); wrU(a.equals(b)?1:0); wrU(b.equals(a)?1:0); wrU(a.equals(a)?1:0); wrU(a.hashCode()==b.hashCode()?1:0); wrU(a.equals(null)?1:0); wrU(a.equals("x")?1:0); break; }
    case "Y": { Object o=h.mk(); h.set(o); h.y(o); break; }
    case "Z": { wrU(h.dyn()?1:0); wrU(h.size()); break; }
    }
  }
  public static void main(String[] a) throws Exception {
    H[] HS = Tbl.make();
    BufferedReader rd=new BufferedReader(new InputStreamReader(System.in),1<<20); PrintStream ps=new PrintStream(new FileOutputStream(FileDescriptor.out),false);
    String l; while((l=rd.readLine())!=null){ if(l.trim().isEmpty()) continue; out.setLength(0); tk=new StringTokenizer(l); String c=tok(); H h=HS[(int)rdI()]; try { run(c,h); } catch(Throwable e){ out.setLength(0); out.append("EXC "+e.toString().replace('\n',' ')); } ps.print(out); ps.print('\n'); ps.flush(); }
  }
}
`

type javaD struct {
	e *emitter
}

func javaPkg(f *File) string {
	for _, o := range f.Options {
		if o[0] == "java_package" {
			return strings.Trim(o[1], "\"'")
		}
	}
	return f.Pkg
}

func (g *javaD) tname(t *Type) string {
	switch t.K {
	case KBool:
		return "boolean"
	case KInt:
		return map[int]string{8: "byte", 16: "short", 32: "int", 64: "long"}[t.W]
	case KFloat:
		return map[int]string{32: "float", 64: "double"}[t.W]
	case KString:
		return "String"
	case KBytes:
		return "byte[]"
	case KEnum:
		return javaPkg(t.En.File) + "." + t.En.Name
	case KStruct:
		return javaPkg(t.St.File) + "." + t.St.Name
	case KArray:
		return g.tname(t.Elem) + "[]"
	}
	return "?"
}

func (g *javaD) rd(t *Type) string {
	switch t.K {
	case KBool:
		return "(rdU()!=0)"
	case KInt:
		if t.Signed {
			return "(" + g.tname(t) + ")rdI()"
		}
		return "(" + g.tname(t) + ")rdU()"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		if t.En.Bits > 32 {
			return g.tname(t) + ".forNumber(rdU())"
		}
		return g.tname(t) + ".forNumber((int)rdU())"
	case KString:
		return "rdS()"
	case KBytes:
		return "rdB()"
	case KStruct:
		return "mk_" + t.St.Name + "()"
	}
	return "?"
}

func (g *javaD) rdv(t *Type, v string, d int) { // declares v and reads it
	if t.K == KArray {
		el := g.tname(t.Elem)
		if t.Elem.K == KBytes {
			g.e.p("byte[][] %s=new byte[%d][];", v, t.N)
		} else {
			g.e.p("%s[] %s=new %s[%d];", el, v, el, t.N)
		}
		g.e.p("for(int i%d=0;i%d<%d;i%d++) %s[i%d]=%s;", d, d, t.N, d, v, d, g.rd(t.Elem))
		return
	}
	g.e.p("%s %s=%s;", g.tname(t), v, g.rd(t))
}

func (g *javaD) put(t *Type, rv string, d int) {
	switch t.K {
	case KArray:
		g.e.p("for(int i%d=0;i%d<%d;i%d++){", d, d, t.N, d)
		g.put(t.Elem, fmt.Sprintf("%s[i%d]", rv, d), d+1)
		g.e.p("}")
	case KStruct:
		g.e.p("put_%s(%s);", t.St.Name, rv)
	case KString:
		g.e.p("wrS(%s);", rv)
	case KBytes:
		g.e.p("wrB(%s);", rv)
	case KBool:
		g.e.p("wrU(%s?1:0);", rv)
	case KInt:
		m := map[int]string{8: "&0xFFL", 16: "&0xFFFFL", 32: "&0xFFFFFFFFL", 64: ""}[t.W]
		if t.Signed {
			g.e.p("wrI(%s);", rv)
		} else {
			g.e.p("wrU(((long)%s)%s);", rv, m)
		}
	case KFloat:
		g.e.p("wrF%d(%s);", t.W, rv)
	case KEnum:
		g.e.p("wrU(%s.getNumber()%s);", rv, map[bool]string{true: "", false: "&0xFFFFFFFFL"}[t.En.Bits > 32])
	}
}

// emitJava returns the driver sources: Drv.java and Tbl.java.
func emitJava(p *Program, ft Feat) (string, string) {
	e := &emitter{}
	g := &javaD{e}
	all := p.AllStructs()
	e.p("class Tbl extends Drv {")
	for _, s := range all {
		sn := javaPkg(s.File) + "." + s.Name
		e.p("static %s mk_%s(){ %s o=new %s();", sn, s.Name, sn, sn)
		e.p("set_%s(o); return o; }", s.Name)
		e.p("static void set_%s(%s o){", s.Name, sn)
		if !ft.Minimal {
			for i, f := range s.Vals() {
				v := fmt.Sprintf("v%d", i)
				g.rdv(f.T, v, 0)
				e.p("o.set%s(%s);", pascal(f.Words), v)
			}
		}
		e.p("}\nstatic void put_%s(%s o){", s.Name, sn)
		if !ft.Minimal {
			for i, f := range s.Vals() {
				v := fmt.Sprintf("v%d", i)
				e.p("%s %s=o.get%s();", g.tname(f.T), v, pascal(f.Words))
				g.put(f.T, v, 0)
			}
		}
		e.p("}\nstatic void y_%s(%s o){", s.Name, sn)
		e.p("for(long n=rdI();n>0;n--){ String c=tok(); int k=(int)rdI();")
		if es := enumsOf(s); len(es) > 0 {
			e.p("if(c.equals(\"n\")) {")
			for _, en := range es {
				cl := javaPkg(en.File) + "." + en.Name
				for _, m := range en.Members {
					e.p("wrU(%s.%s.getNumber()&0xFFFFFFFFL); wrU(%s.forNumber(%s.%s.getNumber()).getNumber()&0xFFFFFFFFL);", cl, m.Name, cl, cl, m.Name)
				}
			}
			e.p("}")
		}
		if !ft.Minimal {
			e.p("if(c.equals(\"f\")) switch(k){")
			for i, f := range s.Vals() {
				e.p("case %d: {", i)
				g.rdv(f.T, "v", 0)
				e.p("o.set%s(v); break; }", pascal(f.Words))
			}
			e.p("}")
		}
		e.p("if(c.equals(\"c\")) switch(k){")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if !m.Get {
					e.p("case %d: o.set%s(%s); break;", i*100+j, pascal(m.W), g.rd(m.Ret))
				}
			}
		}
		e.p("}}")
		e.p("put_%s(o); out.append(\"~ \");", s.Name)
		if !ft.Minimal {
			e.p("put_%s(o);", s.Name)
		}
		e.p("out.append(\"~ \");")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if m.Get {
					v := fmt.Sprintf("m%d_%d", i, j)
					e.p("%s %s=o.get%s();", g.tname(m.Ret), v, pascal(m.W))
					g.put(m.Ret, v, 0)
				}
			}
		}
		e.p("}")
	}
	e.p("static H[] make(){ return new H[]{")
	for i := range all {
		e.p("new H%d(),", i)
	}
	e.p("}; }")
	for i, s := range all {
		sn := javaPkg(s.File) + "." + s.Name
		e.p("static class H%d extends H { Object mk(){return new %s();} void set(Object o){set_%s((%s)o);} void put(Object o){put_%s((%s)o);} void y(Object o){y_%s((%s)o);} int es(Object o){return ((%s)o).encodeSize();} byte[] enc(Object o){return ((%s)o).encode();} int enc(Object o,byte[] d,int s){return ((%s)o).encode(d,s);} int ds(Object o,byte[] d,int s){return ((%s)o).decodeSize(d,s);} int dec(Object o,byte[] d,int s){return ((%s)o).decode(d,s);} boolean dyn(){return %s.dynamic();} int size(){return %s.size();} }",
			i, sn, s.Name, sn, s.Name, sn, s.Name, sn, sn, sn, sn, sn, sn, sn, sn)
	}
	e.p("}")
	return javaRuntime, e.sb.String()
}

// ---------------- C# ----------------

const csRuntime = `
using System; using System.IO; using System.Text; using System.Linq; using System.Collections.Generic;
public partial class Drv {
  static string[] tk; static int ti; static StringBuilder o_ = new StringBuilder();
  static string tok(){ return ti<tk.Length?tk[ti++]:""; }
  static long rdI(){ return long.Parse(tok()); }
  static ulong rdU(){ return ulong.Parse(tok()); }
  static float rdF32(){ var s=tok(); if(s=="nan") return BitConverter.Int32BitsToSingle(0x7fc00000); return BitConverter.Int32BitsToSingle(unchecked((int)(uint)ulong.Parse(s))); }
  static double rdF64(){ var s=tok(); if(s=="nan") return BitConverter.Int64BitsToDouble(0x7ff8000000000000L); return BitConverter.Int64BitsToDouble(unchecked((long)ulong.Parse(s))); }
  static byte[] rdB(){ var s=tok(); if(s=="-"||s=="") return new byte[0]; return Convert.FromHexString(s); }
  static string rdS(){ return Encoding.UTF8.GetString(rdB()); }
  static void wrI(long v){ o_.Append(v).Append(' '); }
  static void wrU(ulong v){ o_.Append(v).Append(' '); }
  static void wrF32(float f){ if(float.IsNaN(f)){ o_.Append("nan "); return; } wrU((ulong)(uint)BitConverter.SingleToInt32Bits(f)); }
  static void wrF64(double f){ if(double.IsNaN(f)){ o_.Append("nan "); return; } wrU(unchecked((ulong)BitConverter.DoubleToInt64Bits(f))); }
  static void wrB(byte[] b){ if(b.Length==0){ o_.Append("- "); return; } o_.Append(Convert.ToHexString(b).ToLowerInvariant()).Append(' '); }
  static void wrB(Memory<byte> b){ wrB(b.ToArray()); }
  static void wrS(string s){ wrB(Encoding.UTF8.GetBytes(s)); }
  abstract class H { public abstract object mk(); public abstract void set(object o); public abstract void put(object o); public abstract void y(object o); public abstract int es(object o); public abstract byte[] enc(object o); public abstract int enc(object o, byte[] d, int s); public abstract int ds(object o, byte[] d, int s); public abstract int dec(object o, byte[] d, int s); public abstract bool dyn(); public abstract int size(); }
  static byte[] mkbuf(int n, int fill){ var b=new byte[n]; Array.Fill(b,(byte)fill); return b; }
  static void run(string c, H h){
    switch(c){
    case "E": { int start=(int)rdU(),pad=(int)rdU(),fill=(int)rdU(); var o=h.mk(); h.set(o); int es=h.es(o); var b=mkbuf(start+es+pad,fill); int r=h.enc(o,b,start); wrI(es); wrI(r); wrB(b); wrB(h.enc(o)); h.put(o); break; }
    case "D": { int start=(int)rdU(),pad=(int)rdU(),fill=(int)rdU(); var d=rdB(); var b=mkbuf(start+d.Length+pad,fill); Array.Copy(d,0,b,start,d.Length); var cp=(byte[])b.Clone(); var o=h.mk(); int ds=h.ds(o,b,start); int r=h.dec(o,b,start); wrI(ds); wrI(r); wrU(b.SequenceEqual(cp)?1ul:0ul); if(r<0) o_.Append("-"); else h.put(o); break; }
    case "P": { var d=rdB(); for(int k=0;k<=d.Length;k++){ var b=d.Take(k).ToArray(); var o=h.mk(); o_.Append(h.ds(o,b,0)).Append(':').Append(h.dec(o,b,0)).Append(' '); } break; }
    case "R": { var d1=rdB(); var d2=rdB(); var o=h.mk(); int r1=h.dec(o,d1,0), r2=h.dec(o,d2,0); wrI(r1); wrI(r2); if(r2<0) o_.Append("-"); else h.put(o); break; }
    case "X": { var d=rdB(); int f=(int)rdU(); var o=h.mk(); int r=h.dec(o,d,0); Array.Fill(d,(byte)f); wrI(r); if(r<0) o_.Append("-"); else h.put(o); break; }
    case "T": { var d=rdB(); var o=h.mk(); int r=h.dec(o,d,0); wrI(r); if(r<0) o_.Append("-"); else wrB(h.enc(o)); break; }
    case "Q": { var a=h.mk(); var b=h.mk(); h.set(a); h.set(b); wrU(a.Equals(b)?1ul:0ul); wrU(b.Equals(a)?1ul:0ul); wrU(a.Equals(a)?1ul:0ul); wrU(a.GetHashCode()==b.GetHashCode()?1ul:0ul); wrU(a.Equals(null)?1ul:0ul); wrU(a.Equals("x")?1ul:0ul); break; }
    case "Y": { var o=h.mk(); h.set(o); h.y(o); break; }
    case "Z": { wrU(h.dyn()?1ul:0ul); wrU((ulong)h.size()); break; }
    }
  }
  public static void Main(string[] a){
    var HS=make(); var rd=new StreamReader(Console.OpenStandardInput(),new UTF8Encoding(false),false,1<<20); var ws=new StreamWriter(Console.OpenStandardOutput(),new UTF8Encoding(false));
    string l; while((l=rd.ReadLine())!=null){ if(l.Trim()=="") continue; o_.Clear(); tk=l.Split(' ',StringSplitOptions.RemoveEmptyEntries); ti=0; var c=tok(); var h=HS[(int)rdI()]; try { run(c,h); } catch(Exception e){ o_.Clear(); o_.Append("EXC "+e.GetType().Name+" "+e.Message.Replace('\n',' ')); } ws.Write(o_.ToString()); ws.Write("\n"); ws.Flush(); }
  }
}
`

type csD struct {
	e  *emitter
	ft Feat
}

// csNs: C# namespace of a file's package.
func csNs(f *File) string {
	for _, o := range f.Options {
		if o[0] == "csharp_namespace" {
			return strings.Trim(o[1], "\"'")
		}
	}
	var ps []string
	for _, x := range strings.Split(f.Pkg, ".") {
		ps = append(ps, pascal(strings.Split(x, "_")))
	}
	return strings.Join(ps, ".")
}

func (g *csD) tname(t *Type) string {
	switch t.K {
	case KBool:
		return "bool"
	case KInt:
		if t.Signed {
			return map[int]string{8: "sbyte", 16: "short", 32: "int", 64: "long"}[t.W]
		}
		return map[int]string{8: "byte", 16: "ushort", 32: "uint", 64: "ulong"}[t.W]
	case KFloat:
		return map[int]string{32: "float", 64: "double"}[t.W]
	case KString:
		return "string"
	case KBytes:
		if g.ft.MemCpy {
			return "byte[]"
		}
		return "Memory<byte>"
	case KEnum:
		return csNs(t.En.File) + "." + t.En.Name
	case KStruct:
		return csNs(t.St.File) + "." + t.St.Name
	case KArray:
		return g.tname(t.Elem) + "[]"
	}
	return "?"
}

func (g *csD) rd(t *Type) string {
	switch t.K {
	case KBool:
		return "(rdU()!=0)"
	case KInt:
		if t.Signed {
			return "(" + g.tname(t) + ")rdI()"
		}
		return "(" + g.tname(t) + ")rdU()"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		return "(" + g.tname(t) + ")rdU()"
	case KString:
		return "rdS()"
	case KBytes:
		return "rdB()"
	case KStruct:
		return "mk_" + t.St.Name + "()"
	}
	return "?"
}

func (g *csD) rdv(t *Type, v string, d int) {
	if t.K == KArray {
		el := g.tname(t.Elem)
		if t.Elem.K == KBytes && g.ft.MemCpy {
			g.e.p("var %s=new byte[%d][];", v, t.N)
		} else {
			g.e.p("var %s=new %s[%d];", v, el, t.N)
		}
		g.e.p("for(int i%d=0;i%d<%d;i%d++) %s[i%d]=%s;", d, d, t.N, d, v, d, g.rd(t.Elem))
		return
	}
	g.e.p("%s %s=%s;", g.tname(t), v, g.rd(t))
}

func (g *csD) put(t *Type, rv string, d int) {
	switch t.K {
	case KArray:
		g.e.p("for(int i%d=0;i%d<%d;i%d++){", d, d, t.N, d)
		g.put(t.Elem, fmt.Sprintf("%s[i%d]", rv, d), d+1)
		g.e.p("}")
	case KStruct:
		g.e.p("put_%s(%s);", t.St.Name, rv)
	case KString:
		g.e.p("wrS(%s);", rv)
	case KBytes:
		g.e.p("wrB(%s);", rv)
	case KBool:
		g.e.p("wrU(%s?1ul:0ul);", rv)
	case KInt:
		if t.Signed {
			g.e.p("wrI((long)%s);", rv)
		} else {
			g.e.p("wrU((ulong)%s);", rv)
		}
	case KFloat:
		g.e.p("wrF%d(%s);", t.W, rv)
	case KEnum:
		if t.En.Bits > 32 {
			g.e.p("wrU(unchecked((ulong)%s));", rv)
		} else {
			g.e.p("wrU(unchecked((uint)%s));", rv)
		}
	}
}

func emitCs(p *Program, ft Feat) (string, string) {
	e := &emitter{}
	g := &csD{e, ft}
	all := p.AllStructs()
	e.p("using System;\npublic partial class Drv {")
	for _, s := range all {
		sn := csNs(s.File) + "." + s.Name
		e.p("static %s mk_%s(){ var o=new %s(); set_%s(o); return o; }", sn, s.Name, sn, s.Name)
		e.p("static void set_%s(%s o){", s.Name, sn)
		if !ft.Minimal {
			for i, f := range s.Vals() {
				v := fmt.Sprintf("v%d", i)
				g.rdv(f.T, v, 0)
				e.p("o.%s=%s;", pascal(f.Words), v)
			}
		}
		e.p("}\nstatic void put_%s(%s o){", s.Name, sn)
		if !ft.Minimal {
			for i, f := range s.Vals() {
				v := fmt.Sprintf("v%d", i)
				e.p("var %s=o.%s;", v, pascal(f.Words))
				g.put(f.T, v, 0)
			}
		}
		e.p("}\nstatic void y_%s(%s o){", s.Name, sn)
		e.p("for(long n=rdI();n>0;n--){ var c=tok(); int k=(int)rdI();")
		if es := enumsOf(s); len(es) > 0 {
			e.p("if(c==\"n\") {")
			for _, en := range es {
				cl := csNs(en.File) + "." + en.Name
				for _, m := range en.Members {
					e.p("wrU(unchecked((ulong)%s.%s)); wrU(unchecked((ulong)Enum.Parse<%s>(%q)));", cl, m.Name, cl, m.Name)
				}
			}
			e.p("}")
		}
		if !ft.Minimal {
			e.p("if(c==\"f\") switch(k){")
			for i, f := range s.Vals() {
				e.p("case %d: {", i)
				g.rdv(f.T, "v", 0)
				e.p("o.%s=v; break; }", pascal(f.Words))
			}
			e.p("}")
		}
		e.p("if(c==\"c\") switch(k){")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if !m.Get {
					e.p("case %d: o.%s=%s; break;", i*100+j, pascal(m.W), g.rd(m.Ret))
				}
			}
		}
		e.p("}}")
		e.p("put_%s(o); o_.Append(\"~ \");", s.Name)
		if !ft.Minimal {
			e.p("put_%s(o);", s.Name)
		}
		e.p("o_.Append(\"~ \");")
		for i, f := range s.Vals() {
			for j, m := range f.Methods {
				if m.Get {
					v := fmt.Sprintf("m%d_%d", i, j)
					e.p("%s %s=o.%s;", g.tname(m.Ret), v, pascal(m.W))
					g.put(m.Ret, v, 0)
				}
			}
		}
		e.p("}")
	}
	e.p("static H[] make(){ return new H[]{")
	for i := range all {
		e.p("new H%d(),", i)
	}
	e.p("}; }")
	for i, s := range all {
		sn := csNs(s.File) + "." + s.Name
		e.p("class H%d : H { public override object mk(){return new %s();} public override void set(object o){set_%s((%s)o);} public override void put(object o){put_%s((%s)o);} public override void y(object o){y_%s((%s)o);} public override int es(object o){return ((%s)o).EncodeSize();} public override byte[] enc(object o){return ((%s)o).Encode();} public override int enc(object o,byte[] d,int s){return ((%s)o).Encode(d,s);} public override int ds(object o,byte[] d,int s){return ((%s)o).DecodeSize(d,s);} public override int dec(object o,byte[] d,int s){return ((%s)o).Decode(d,s);} public override bool dyn(){return %s.Dynamic;} public override int size(){return %s.Size;} }",
			i, sn, s.Name, sn, s.Name, sn, s.Name, sn, sn, sn, sn, sn, sn, sn, sn)
	}
	e.p("}")
	return csRuntime, e.sb.String()
}
