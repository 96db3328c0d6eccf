package main

// Driver emission: for each target language, a program that speaks a small
// line protocol over the generated code. Every value is a token stream, so
// the per-struct part of a driver is only a field-by-field set/put pair.
//
//  E si start pad fill vals       encode       -> es ret hex(buf) alloc|- vals(after)
//  D si start pad fill hex        decode       -> ds ret same vals|-
//  P si hex                       prefixes     -> ds0:ret0 ds1:ret1 ...
//  R si hex1 hex2                 reuse        -> ret1 ret2 vals
//  X si hex fill                  ownership    -> ret vals (after overwriting the source)
//  Q si vals1 vals2               equality     -> a==b b==a a==a h(a)==h(b) a==null a==other
//  Y si vals nops op*             accessors    -> vals customgetters item/len-checks
//  T si hex                       transcode    -> ret hex
//  Z si                           statics      -> dynamic size

import (
	"fmt"
	"strings"
)

// Features of a driver variant.
type Feat struct {
	Minimal bool
	Compat  bool
	MemCpy  bool
	Single  bool
}

func hasOpt(opts []string, o string) bool {
	for _, x := range opts {
		if x == o {
			return true
		}
	}
	return false
}

type emitter struct {
	sb  strings.Builder
	ind int
}

func (e *emitter) p(f string, a ...any) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	e.sb.WriteString(s)
	e.sb.WriteByte('\n')
}

// ---------------- C ----------------

const cRuntime = `
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>
static char *LP; /* rest of the line */
static char* tok(void){ while(*LP==' ')LP++; if(!*LP||*LP=='\n'){ return (char*)""; } char*s=LP; while(*LP&&*LP!=' '&&*LP!='\n')LP++; if(*LP){*LP=0;LP++;} return s; }
static int64_t rdI(void){ return strtoll(tok(),0,10); }
static uint64_t rdU(void){ return strtoull(tok(),0,10); }
static float rdF32(void){ char*s=tok(); uint32_t u; if(s[0]=='n') u=0x7fc00000u; else u=(uint32_t)strtoull(s,0,10); float f; memcpy(&f,&u,4); return f; }
static double rdF64(void){ char*s=tok(); uint64_t u; if(s[0]=='n') u=0x7ff8000000000000ull; else u=strtoull(s,0,10); double f; memcpy(&f,&u,8); return f; }
static int hv(char c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static uint8_t* rdHex(uint64_t*n){ char*s=tok(); if(s[0]=='-'){*n=0;return (uint8_t*)calloc(1,1);} uint64_t l=strlen(s)/2; uint8_t*b=(uint8_t*)malloc(l+1); for(uint64_t i=0;i<l;i++)b[i]=(uint8_t)(hv(s[2*i])*16+hv(s[2*i+1])); b[l]=0; *n=l; return b; }
static uint8_t* rdHexExact(uint64_t*n){ char*s=tok(); if(s[0]=='-'){*n=0;return (uint8_t*)malloc(0);} uint64_t l=strlen(s)/2; uint8_t*b=(uint8_t*)malloc(l); for(uint64_t i=0;i<l;i++)b[i]=(uint8_t)(hv(s[2*i])*16+hv(s[2*i+1])); *n=l; return b; }
static void wrI(int64_t v){ printf("%" PRId64 " ",v); }
static void wrU(uint64_t v){ printf("%" PRIu64 " ",v); }
static void wrF32(float f){ if(f!=f){printf("nan ");return;} uint32_t u; memcpy(&u,&f,4); printf("%u ",u); }
static void wrF64(double f){ if(f!=f){printf("nan ");return;} uint64_t u; memcpy(&u,&f,8); printf("%" PRIu64 " ",u); }
static void wrHex(const uint8_t*b,uint64_t n){ if(!n){printf("- ");return;} for(uint64_t i=0;i<n;i++)printf("%02x",b[i]); printf(" "); }
static void wrBool(const void*p){ uint8_t u; memcpy(&u,p,1); printf("%u ",u); }
`

func cType(t *Type) string {
	switch t.K {
	case KBool:
		return "bool"
	case KInt:
		if t.Signed {
			return fmt.Sprintf("int%d_t", t.W)
		}
		return fmt.Sprintf("uint%d_t", t.W)
	case KFloat:
		if t.W == 32 {
			return "float"
		}
		return "double"
	case KString:
		return "char*"
	case KBytes:
		return "struct bytes"
	case KEnum:
		return "enum " + t.En.Name
	case KStruct:
		return "struct " + t.St.Name
	}
	return "?"
}

func cRd(t *Type) string {
	switch t.K {
	case KBool:
		return "(rdU()!=0)"
	case KInt:
		if t.Signed {
			return "(" + cType(t) + ")rdI()"
		}
		return "(" + cType(t) + ")rdU()"
	case KFloat:
		return fmt.Sprintf("rdF%d()", t.W)
	case KEnum:
		return "(" + cType(t) + ")rdU()"
	}
	return "?"
}

type cNames struct {
	cpp bool
	ns  string // "vp::gen::" in C++
	typ func(t *Type) string
}

func (n *cNames) sname(s *Struct) string {
	if n.cpp {
		return nsOf(s.File) + s.Name
	}
	return "struct " + s.Name
}

// nsOf: C++ namespace prefix of a file's package.
func nsOf(f *File) string {
	pkg := strings.ReplaceAll(f.Pkg, ".", "::")
	for _, o := range f.Options {
		if o[0] == "cpp_namespace" {
			pkg = strings.Trim(o[1], "\"'")
		}
	}
	return "::" + pkg + "::"
}

func (n *cNames) tname(t *Type) string {
	if n.cpp {
		switch t.K {
		case KString:
			return "std::string"
		case KEnum:
			return nsOf(t.En.File) + t.En.Name
		case KStruct:
			return n.sname(t.St)
		}
	}
	return cType(t)
}

// emit code that reads tokens into lvalue lv
func (n *cNames) set(e *emitter, t *Type, lv string, d int) {
	switch t.K {
	case KArray:
		e.p("for(int i%d=0;i%d<%d;i%d++){", d, d, t.N, d)
		n.set(e, t.Elem, fmt.Sprintf("%s[i%d]", lv, d), d+1)
		e.p("}")
	case KStruct:
		e.p("set_%s(&%s);", t.St.Name, lv)
	case KString:
		if n.cpp {
			e.p("{uint64_t l;uint8_t*b=rdHex(&l);%s=std::string((char*)b,l);free(b);}", lv)
		} else {
			e.p("{uint64_t l;%s=(char*)rdHex(&l);}", lv)
		}
	case KBytes:
		if n.cpp {
			e.p("{uint64_t l;uint8_t*b=rdHexExact(&l);%s.data=std::shared_ptr<uint8_t[]>(b,[](uint8_t*p){free(p);});%s.length=l;}", lv, lv)
		} else {
			e.p("{uint64_t l;%s.data=rdHexExact(&l);%s.length=l;}", lv, lv)
		}
	default:
		if n.cpp {
			e.p("%s=(%s)%s;", lv, n.tname(t), strings.Replace(cRd(t), "(enum "+enName(t)+")", "", 1))
		} else {
			e.p("%s=%s;", lv, cRd(t))
		}
	}
}

func enName(t *Type) string {
	if t.K == KEnum {
		return t.En.Name
	}
	return "\x00"
}

func (n *cNames) put(e *emitter, t *Type, rv string, d int) {
	switch t.K {
	case KArray:
		e.p("for(int i%d=0;i%d<%d;i%d++){", d, d, t.N, d)
		n.put(e, t.Elem, fmt.Sprintf("%s[i%d]", rv, d), d+1)
		e.p("}")
	case KStruct:
		e.p("put_%s(&%s);", t.St.Name, rv)
	case KString:
		if n.cpp {
			e.p("wrHex((const uint8_t*)%s.data(),%s.size());", rv, rv)
		} else {
			e.p("wrHex((const uint8_t*)%s,strlen(%s));", rv, rv)
		}
	case KBytes:
		if n.cpp {
			e.p("wrHex(%s.data.get(),%s.length);", rv, rv)
		} else {
			e.p("wrHex(%s.data,%s.length);", rv, rv)
		}
	case KBool:
		e.p("wrBool(&%s);", rv)
	case KInt:
		if t.Signed {
			e.p("wrI((int64_t)%s);", rv)
		} else {
			e.p("wrU((uint64_t)%s);", rv)
		}
	case KFloat:
		e.p("wrF%d(%s);", t.W, rv)
	case KEnum:
		e.p("wrU((uint64_t)(%s)%s);", enumHost(t.En), rv)
	}
}

// unsigned host type wide enough for an enum
func enumHost(e *Enum) string {
	for _, w := range intW {
		if w >= e.Bits {
			return fmt.Sprintf("uint%d_t", w)
		}
	}
	return "uint64_t"
}

func emitC(p *Program, headers []string, ft Feat, cpp bool) string {
	e := &emitter{}
	n := &cNames{cpp: cpp}
	for _, h := range headers {
		e.p("#include \"%s\"", h)
	}
	e.p("#include <string.h>\n#include <stdbool.h>\n#include <stdint.h>")
	if cpp {
		e.p("#include <string>\n#include <memory>")
		if !ft.Compat {
			e.p("#include <span>")
		}
	}
	e.p(cRuntime)
	all := p.AllStructs()
	for _, s := range all {
		sn := n.sname(s)
		e.p("static void set_%s(%s*o){", s.Name, sn)
		for _, f := range s.Vals() {
			n.set(e, f.T, "o->"+snake(f.Words), 0)
		}
		e.p("}")
		e.p("static void put_%s(%s*o){", s.Name, sn)
		for _, f := range s.Vals() {
			n.put(e, f.T, "o->"+snake(f.Words), 0)
		}
		e.p("}")
		n.emitY(e, s, ft)
	}
	// dispatch
	e.p("typedef struct {size_t sz; void*(*mk)(int); void(*set)(void*); void(*put)(void*); uint64_t(*es)(void*); uint64_t(*enc)(void*,uint8_t*,uint64_t); int64_t(*ds)(const uint8_t*,uint64_t); int64_t(*dec)(const uint8_t*,uint64_t,void*); void(*y)(void*); bool dyn; uint64_t size;} H;")
	for _, s := range all {
		sn := n.sname(s)
		N := s.Name
		if cpp {
			e.p("static void* mk_%s(int g){ (void)g; return new %s(); }", N, sn)
			e.p("static uint64_t es_%s(void*o){ return ((%s*)o)->encode_size(); }", N, sn)
			if ft.Compat {
				e.p("static uint64_t enc_%s(void*o,uint8_t*d,uint64_t n){ (void)n; return ((%s*)o)->encode((void*)d); }", N, sn)
				e.p("static int64_t ds_%s(const uint8_t*d,uint64_t n){ return %s::decode_size((const void*)d,n); }", N, sn)
				e.p("static int64_t dec_%s(const uint8_t*d,uint64_t n,void*o){ (void)n; return ((%s*)o)->decode((const void*)d); }", N, sn)
			} else {
				e.p("static uint64_t enc_%s(void*o,uint8_t*d,uint64_t n){ return ((%s*)o)->encode(std::span<uint8_t>(d,n)); }", N, sn)
				e.p("static int64_t ds_%s(const uint8_t*d,uint64_t n){ return %s::decode_size(std::span<const uint8_t>(d,n)); }", N, sn)
				e.p("static int64_t dec_%s(const uint8_t*d,uint64_t n,void*o){ return ((%s*)o)->decode(std::span<const uint8_t>(d,n)); }", N, sn)
			}
		} else {
			e.p("static void* mk_%s(int g){ void*o=malloc(sizeof(%s)); memset(o,g,sizeof(%s)); return o; }", N, sn, sn)
			e.p("static uint64_t es_%s(void*o){ return %s_encode_size((%s*)o); }", N, N, sn)
			e.p("static uint64_t enc_%s(void*o,uint8_t*d,uint64_t n){ (void)n; return %s_encode((%s*)o,d); }", N, N, sn)
			e.p("static int64_t ds_%s(const uint8_t*d,uint64_t n){ return %s_decode_size(d,n); }", N, N)
			e.p("static int64_t dec_%s(const uint8_t*d,uint64_t n,void*o){ (void)n; return %s_decode(d,(%s*)o); }", N, N, sn)
		}
		e.p("static void set0_%s(void*o){set_%s((%s*)o);}", N, N, sn)
		e.p("static void put0_%s(void*o){put_%s((%s*)o);}", N, N, sn)
	}
	e.p("static H HS[]={")
	for _, s := range all {
		N := s.Name
		sn := n.sname(s)
		dyn, size := N+"_dynamic", N+"_size"
		if cpp {
			dyn, size = sn+"::dynamic", sn+"::size"
		}
		if cpp {
			e.p("{sizeof(%s),mk_%s,set0_%s,put0_%s,es_%s,enc_%s,ds_%s,dec_%s,y_%s,%s,%s},", sn, N, N, N, N, N, N, N, N, dyn, size)
		} else {
			e.p("{sizeof(%s),mk_%s,set0_%s,put0_%s,es_%s,enc_%s,ds_%s,dec_%s,y_%s,0,0},", sn, N, N, N, N, N, N, N, N)
		}
	}
	e.p("};")
	if !cpp {
		e.p("static void initH(void){")
		for i, s := range all {
			e.p("HS[%d].dyn=%s_dynamic;HS[%d].size=%s_size;", i, s.Name, i, s.Name)
		}
		e.p("}")
	} else {
		e.p("static void initH(void){}")
	}
	e.p(cMain)
	return e.sb.String()
}

const cMain = `
int main(void){
  initH();
  size_t cap=1<<23; char*line=(char*)malloc(cap);
  while(fgets(line,(int)cap,stdin)){
    LP=line; char c=tok()[0]; if(!c)continue; H*h=&HS[rdI()];
    if(c=='E'){
      uint64_t start=rdU(),pad=rdU(),fill=rdU(); void*o=h->mk(0); h->set(o);
      uint64_t es=h->es(o); uint64_t n=start+es+pad; uint8_t*b=(uint8_t*)malloc(n); memset(b,(int)fill,n);
      uint64_t r=h->enc(o,b+start,es+pad); wrU(es); wrU(r); wrHex(b,n); printf("~ "); h->put(o); free(b);
    } else if(c=='D'){
      uint64_t start=rdU(),pad=rdU(),fill=rdU(),l; uint8_t*d=rdHexExact(&l); uint64_t n=start+l+pad; uint8_t*b=(uint8_t*)malloc(n); memset(b,(int)fill,n); memcpy(b+start,d,l);
      uint8_t*cpy=(uint8_t*)malloc(n); memcpy(cpy,b,n);
      void*o=h->mk((int)fill==0x11?0xAB:0); int64_t ds=h->ds(b+start,l+pad); wrI(ds); if(ds<=0){printf("%s","-9 1 -");} else { int64_t r=h->dec(b+start,l+pad,o); wrI(r); printf("%d ",memcmp(b,cpy,n)==0); if(r<0)printf("-"); else h->put(o);} 
    } else if(c=='P'){
      uint64_t l; uint8_t*d=rdHexExact(&l);
      for(uint64_t k=0;k<=l;k++){ uint8_t*b=(uint8_t*)malloc(k); memcpy(b,d,k); printf("%" PRId64 ":x ",h->ds(b,k)); free(b);} 
    } else if(c=='R'){
      uint64_t l1,l2; uint8_t*d1=rdHexExact(&l1),*d2=rdHexExact(&l2); void*o=h->mk(0); int64_t r1=h->dec(d1,l1,o); int64_t r2=h->dec(d2,l2,o); wrI(r1); wrI(r2); if(r2<0)printf("-"); else h->put(o);
    } else if(c=='X'){
      uint64_t l; uint8_t*d=rdHexExact(&l); uint64_t fill=rdU(); void*o=h->mk(0); int64_t r=h->dec(d,l,o); memset(d,(int)fill,l); wrI(r); if(r<0)printf("-"); else h->put(o);
    } else if(c=='T'){
      uint64_t l; uint8_t*d=rdHexExact(&l); void*o=h->mk(0); int64_t r=h->dec(d,l,o); wrI(r); if(r<0)printf("-"); else { uint64_t es=h->es(o); uint8_t*b=(uint8_t*)calloc(es+1,1); uint64_t w=h->enc(o,b,es); wrHex(b,w); }
    } else if(c=='Y'){ void*o=h->mk(0); h->set(o); h->y(o);
    } else if(c=='Z'){ wrI(h->dyn); wrU(h->size); }
    printf("\n"); fflush(stdout);
  }
  return 0;
}
`

// emitY: accessor histories. Ops: "f k": whole setter of field k; "i k idx": item
// setter; "c k m": custom setter m of field k; the getters are then all printed.
func (n *cNames) emitY(e *emitter, s *Struct, ft Feat) {
	sn := n.sname(s)
	e.p("static void y_%s(void*vp){ %s*o=(%s*)vp; (void)o;", s.Name, sn, sn)
	e.p("int nops=(int)rdI(); for(int q=0;q<nops;q++){ char c=tok()[0]; int k=(int)rdI(); (void)c;(void)k;")
	call := func(get bool, f, suf string, args string) string {
		k := "set_"
		if get {
			k = "get_"
		}
		if n.cpp {
			return fmt.Sprintf("o->%s%s%s(%s)", k, f, suf, args)
		}
		a := "o"
		if args != "" {
			a += "," + args
		}
		return fmt.Sprintf("%s_%s%s%s(%s)", s.Name, k, f, suf, a)
	}
	if es := enumsOf(s); len(es) > 0 {
		e.p("if(c=='n'){")
		for _, en := range es {
			for _, m := range en.Members {
				nm := m.Name
				if n.cpp {
					nm = nsOf(en.File) + en.Name + "::" + m.Name
				}
				e.p("wrU((uint64_t)(%s)%s); wrU((uint64_t)(%s)%s);", enumHost(en), nm, enumHost(en), nm)
			}
		}
		e.p("}")
	}
	if !ft.Minimal {
		e.p("if(c=='f')switch(k){")
		for i, f := range s.Vals() {
			fn := snake(f.Words)
			e.p("case %d:{", i)
			if f.T.K == KArray {
				e.p("static %s v[%d];", n.tname(f.T.Elem), f.T.N)
				n.set(e, f.T, "v", 0)
				e.p("%s;", call(false, fn, "", fmt.Sprintf("v,%d", f.T.N)))
			} else {
				e.p("%s v%s;", n.tname(f.T), map[bool]string{true: "{}", false: ""}[n.cpp])
				n.set(e, f.T, "v", 0)
				if f.T.K == KStruct && !n.cpp {
					e.p("%s;", call(false, fn, "", "v"))
				} else {
					e.p("%s;", call(false, fn, "", "v"))
				}
			}
			e.p("break;}")
		}
		e.p("}")
		e.p("if(c=='i')switch(k){")
		for i, f := range s.Vals() {
			if f.T.K != KArray {
				continue
			}
			e.p("case %d:{ uint64_t ix=rdU();", i)
			e.p("%s v%s;", n.tname(f.T.Elem), map[bool]string{true: "{}", false: ""}[n.cpp])
			n.set(e, f.T.Elem, "v", 0)
			e.p("%s; break;}", call(false, snake(f.Words), "_item", "ix,v"))
		}
		e.p("}")
		// the first items of an array, from memory that holds no more than those
		e.p("if(c=='p')switch(k){")
		for i, f := range s.Vals() {
			if f.T.K != KArray {
				continue
			}
			ty := n.tname(f.T.Elem)
			e.p("case %d:{ uint64_t ix=rdU(); static %s v[%d];", i, ty, f.T.N)
			n.set(e, f.T, "v", 0)
			if n.cpp {
				e.p("%s*w=new %s[ix];", ty, ty)
			} else {
				e.p("%s*w=(%s*)malloc(ix*sizeof(%s)+(ix==0));", ty, ty, ty)
			}
			e.p("for(uint64_t q=0;q<ix&&q<%d;q++) w[q]=v[q];", f.T.N)
			if !n.cpp {
				e.p("for(uint64_t q=%d;q<ix;q++) w[q]=v[0];", f.T.N)
			}
			e.p("%s; %s break;}", call(false, snake(f.Words), "", "w,ix"), map[bool]string{true: "delete[] w;", false: "free(w);"}[n.cpp])
		}
		e.p("}")
	}
	e.p("if(c=='c')switch(k){")
	for i, f := range s.Vals() {
		for j, m := range f.Methods {
			if m.Get {
				continue
			}
			e.p("case %d:{", i*100+j)
			e.p("%s v=%s; %s; break;}", n.tname(m.Ret), cRd(m.Ret), call(false, snake(m.W), "", "v"))
		}
	}
	e.p("}")
	e.p("}")
	e.p("put_%s(o); printf(\"~ \");", s.Name)
	if !ft.Minimal {
		for _, f := range s.Vals() {
			fn := snake(f.Words)
			if f.T.K == KArray {
				e.p("{ wrU(%s);", call(true, fn, "_length", ""))
				e.p("for(int i=0;i<%d;i++){", f.T.N)
				amp := ""
				if f.T.Elem.K == KStruct {
					e.p("%s v=%s; put_%s(&v);", n.tname(f.T.Elem), call(true, fn, "_item", "i"), f.T.Elem.St.Name)
				} else {
					e.p("%s v=%s;", n.tname(f.T.Elem), call(true, fn, "_item", "i"))
					n.put(e, f.T.Elem, "v"+amp, 1)
				}
				e.p("} %s*av=(%s*)%s; (void)av;", n.tname(f.T.Elem), n.tname(f.T.Elem), call(true, fn, "", ""))
				n.put(e, f.T, "av", 0)
				e.p("}")
			} else if f.T.K == KStruct && !n.cpp {
				e.p("{ %s v=%s; put_%s(&v); }", n.tname(f.T), call(true, fn, "", ""), f.T.St.Name)
			} else {
				e.p("{ %s v=%s;", n.tname(f.T), call(true, fn, "", ""))
				n.put(e, f.T, "v", 0)
				e.p("}")
			}
		}
	}
	e.p("printf(\"~ \");")
	for _, f := range s.Vals() {
		for _, m := range f.Methods {
			if m.Get {
				e.p("{ %s v=%s;", n.tname(m.Ret), call(true, snake(m.W), "", ""))
				n.put(e, m.Ret, "v", 0)
				e.p("}")
			}
		}
	}
	e.p("}")
}

// enumsOf lists the enums of a struct's fields.
func enumsOf(s *Struct) []*Enum {
	var out []*Enum
	seen := map[*Enum]bool{}
	for _, f := range s.Vals() {
		if t := baseType(f.T); t.K == KEnum && !seen[t.En] {
			seen[t.En] = true
			out = append(out, t.En)
		}
	}
	return out
}
