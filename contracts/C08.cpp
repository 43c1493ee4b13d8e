// C08: RIB written by the RIB writer reads back as the same RI calls -- contracts on RibWriter (all requests), BinaryFormatter, AsciiFormatter, printParamList, TokenDict, composed with the real parser.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="ISTREAM;OSTREAM;^_ZN5Aqsis12RibLexerImpl9streamPos.*$=>vp_noPos" iters=200
//@assume std::ostream output functions append the documented characters (trusted stub in lib/ostream_model.h); std::istream as in C07; gzip output and archive interpolation (file system) are outside
#include "rib_parse.h"
#include "libs/riutil/tokendictionary.cpp"
#include "libs/riutil/ribwriter.cpp"
// outside this property: logging, file search, filter plugins
namespace Aqsis {
std::ostream& log(){ static std::ostream o(0); return o; }
std::ostream& debug(std::ostream& o){ return o; } std::ostream& info(std::ostream& o){ return o; } std::ostream& warning(std::ostream& o){ return o; } std::ostream& error(std::ostream& o){ return o; } std::ostream& critical(std::ostream& o){ return o; }
Ri::Filter* createFilter(const char*,const Ri::ParamList&){ return 0; }
std::string expandSearchPath(const std::string& p,const std::string&,const std::string&){ return p; }
boostfs::path findFileNothrow(const std::string&,const std::string&){ return boostfs::path(); }
std::string native(const boostfs::path&){ return std::string(); }
}
// text of error messages is outside
extern "C" std::string vp_noPos(void*){ return std::string("?"); }
// a file to write to: engine: characters kept in the object; native: a real ostringstream
#ifdef VP_BC
struct OutFile { BigOut b; OutFile(){ om_init(&b,2600); } std::ostream& s(){ return *(std::ostream*)&b; } int len(){ return b.len; } unsigned char at(int i){ return (unsigned char)b.c[i]; } };
#else
struct OutFile { std::ostringstream o; std::ostream& s(){ return o; } int len(){ return (int)o.str().size(); } unsigned char at(int i){ return (unsigned char)o.str()[i]; } };
#endif
static int copyOut(OutFile& f){ int n=f.len(); for(int i=0;i<n && i<2400;++i) g_data[i]=f.at(i); return n; }
struct Writer { OutFile f; RibWriterServices* w; Writer(bool binary,int indent=4){ RibWriterOptions o; o.useBinary=binary; o.indentStep=indent; w=createRibWriter(f.s(),o); w->registerFilterFunc("gaussian",vpFilterFunc); w->registerErrorFunc("print",vpErrorFunc); w->registerProcSubdivFunc("RunProgram",vpSubdivFunc); }
	Ri::Renderer& r(){ return w->firstFilter(); } ~Writer(){ delete (RibWriterServicesImpl*)w; } };
static char g_prog[]="prog arg", g_pdat[]="data"; static char* g_procData[2]={g_prog,g_pdat}; static int g_freed;
static RtVoid procFree(RtPointer){ ++g_freed; }
static void callW(int p,Ri::Renderer& r){ if(p==P_Procedural){ r.Procedural((RtPointer)g_procData,g_args.b[0],vpSubdivFunc,procFree); return; } if(p==P_ReadArchive){ r.ReadArchive(g_args.s[0],0,g_args.pl); return; } callProc(p,r,g_args); }
static Writer* g_bw; static Writer* g_aw;
SETUP(binary){ setup_parser(); g_bw=new Writer(true); }
SETUP(ascii){ setup_parser(); g_aw=new Writer(false,2); }
// every request with arbitrary numeric arguments, written in binary, reads back as the same call
//@proof binary shards=4 setup=binary
PROOF(binary){
	int p=vp_pick("proc",NPROC); g_intClass=p%4; setArgs(p,2); symArgs(p,2); if(p==P_Declare) g_args.s[1]="uniform float"; if(p==P_Basis) for(int j=0;j<2;++j){ float m0=g_args.m[j][0][0]; vp_assume(m0>100); }
	if(g_hasParams[p]) symParams(4); g_freed=0; USE_SETUP(binary); Writer& w=*g_bw; int k=symi("k");
	callW(p,w.r()); w.r().FrameBegin(k); callW(p,w.r()); int n=copyOut(w.f); vp_assert(n<2400,"spec buffer");
	ParseServices& s=*g_ps1; ParseRec r; g_procOk=true; run(n,r,s); Rec e; expect(p,e); e.FrameBegin(k); expect(p,e);
	vp_assert(r.calls==3 && sameTrace(r.t,e.t),"binary RIB reads back as the same calls"); vp_assert(g_nerr==0,"binary RIB is well formed"); vp_assert(g_procOk,"procedural data is written"); vp_assert(g_freed==(p==P_Procedural?2:0),"procedural data is freed once");
}
// the same in ASCII (engine: one fixed argument set per request with values that have short decimal expansions; native: floats of arbitrary digits, equal to float reading accuracy)
#ifdef VP_BC
static float ascf(const char* n,int k){ return (k%5-2)*2.25f+k; }
static bool closeTrace(const Trace& a,const Trace& b){ return sameTrace(a,b); }
#else
static float ascf(const char* n,int k){ uint32_t u=vp_u32(n); float x; memcpy(&x,&u,4); float y=x<0?-x:x; if(!(y>1e-6f && y<1e9f)) x=(int)(u%2001)-1000; return x; }
static bool closeTrace(const Trace& a,const Trace& b){ if(a.n!=b.n) return false; for(int i=0;i<a.n;++i) if(a.v[i]!=b.v[i]){ uint32_t u=(uint32_t)a.v[i], w=(uint32_t)b.v[i]; float x,y; memcpy(&x,&u,4); memcpy(&y,&w,4); double d=(double)x-y; if(!(d*d<=2.25e-12*(double)y*y)) return false; } return true; }
#endif
//@proof ascii shards=3 setup=ascii iters=3000
PROOF(ascii){
	int p=vp_pick("proc",NPROC); g_intClass=-1; setArgs(p,2); for(int k=0;k<g_n_f[p];++k) g_args.f[k]=ascf("f",k); for(int k=0;k<g_n_c[p];++k) for(int j=0;j<3;++j) g_args.c[k][j]=ascf("c",j); for(int k=0;k<g_n_b[p];++k) for(int j=0;j<6;++j) g_args.b[k][j]=ascf("b",j); for(int k=0;k<g_n_m[p];++k) for(int j=0;j<16;++j) g_args.m[k][j/4][j%4]=ascf("m",j);
	if(p==P_Declare) g_args.s[1]="uniform float"; if(p==P_Basis) g_args.m[0][0][0]=g_args.m[1][0][0]=101; USE_SETUP(ascii); Writer& w=*g_aw; static const int ks[3]={0,-2147483647-1,2147483647}; int k=ks[p%3];
	w.r().FrameBegin(k); callW(p,w.r()); w.r().FrameBegin(k); callW(p,w.r()); int n=copyOut(w.f); vp_assert(n<2400,"spec buffer");
	ParseServices& s=*g_ps1; ParseRec r; g_procOk=true; run(n,r,s); Rec e; e.FrameBegin(k); expect(p,e); e.FrameBegin(k); expect(p,e);
	vp_assert(r.calls==4 && closeTrace(r.t,e.t),"ASCII RIB reads back as the same calls"); vp_assert(g_nerr==0,"ASCII RIB is well formed"); vp_assert(g_procOk,"procedural data is written in ASCII");
}
// strings in ASCII: every character that needs no escape
//@proof ascii_strings setup=ascii
PROOF(ascii_strings){
	unsigned char c=vp_u8("c"); vp_assume(c!=0 && c!=255); bool plain=c>=32 && c<=176 && c!='"' && c!='\\'; USE_SETUP(ascii); Writer& w=*g_aw; ParseServices& s=*g_ps1; char t[4]={'a',(char)c,'b',0}; vp_assume(plain);
	w.r().Orientation(t); int n=copyOut(w.f); ParseRec r; run(n,r,s); Rec e; e.Orientation(t); vp_assert(r.calls==1 && sameTrace(r.t,e.t),"an ASCII string reads back with the same characters");
}
//@proof ascii_escapes setup=ascii native=0
PROOF(ascii_escapes){
	unsigned char c=vp_u8("c"); USE_SETUP(ascii); Writer& w=*g_aw; ParseServices& s=*g_ps1; vp_assume(c=='"' || c=='\\' || c=='\n' || c=='\t'); char t[4]={'a',(char)c,'b',0};
	w.r().Orientation(t); int n=copyOut(w.f); ParseRec r; run(n,r,s); Rec e; e.Orientation(t); vp_assert(r.calls==1 && sameTrace(r.t,e.t),"an ASCII string with escaped characters reads back with the same characters");
}
// long strings and long float arrays in binary
//@proof sizes setup=binary shards=2
PROOF(sizes){
	static const int ns[]={0,1,15,16,17,255,256,300}; int m=vp_pick("n",8), len=ns[m]; USE_SETUP(binary); Writer& w=*g_bw; ParseServices& s=*g_ps1; static char t[320]; for(int k=0;k<len;++k) t[k]='a'+k%26; t[len]=0; unsigned char c=vp_u8("c"); vp_assume(c!=0); if(len>0) t[len-1]=(char)c; if(len>15) t[14]=(char)c;
	static float fl[320]; for(int k=0;k<len;++k) fl[k]=k*0.5f; float f=symf("f"); if(len>0) fl[len-1]=f;
	w.r().Orientation(t); w.r().MotionBegin(Ri::FloatArray(fl,len)); w.r().FrameBegin(5); int n=copyOut(w.f);
	struct L : public Rec { const char* t; const float* f; int len; bool ok; int got; L():ok(true),got(0){} virtual RtVoid Orientation(RtConstToken o){ int k=0; for(;k<len;++k) ok&=o[k]==t[k]; ok&=o[k]==0; ++got; } virtual RtVoid MotionBegin(const Ri::FloatArray& a){ ok&=(int)a.size()==len; for(int k=0;k<len&&k<(int)a.size();++k) ok&=vp_bits(a[k])==vp_bits(f[k]); ++got; } } r; r.t=t; r.f=fl; r.len=len; run(n,r,s);
	vp_assert(r.got==2 && r.ok,"strings and float arrays of any length read back unchanged"); Rec e; e.FrameBegin(5); vp_assert(((Rec&)r).calls==1 && g_nerr==0,"the next request is read");
}
// standard bases are written by name and read back with the values of the RI specification
static const float g_specBasis[5][16]={{-1,3,-3,1,3,-6,3,0,-3,3,0,0,1,0,0,0},{-1.f/6,0.5f,-0.5f,1.f/6,0.5f,-1,0.5f,0,-0.5f,0,0.5f,0,1.f/6,2.f/3,1.f/6,0},{-0.5f,1.5f,-1.5f,0.5f,1,-2.5f,2,-0.5f,-0.5f,0,0.5f,0,0,1,0,0},{2,1,-2,1,-3,-2,3,-1,0,1,0,0,1,0,0,0},{1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}};
struct BasisServices : public ParseServices { RibWriterServices* w; virtual RtConstBasis* getBasis(RtConstToken n) const { return w->getBasis(n); } };
static BasisServices* g_bs; SETUP(bases){ g_bw=new Writer(true); g_bs=new BasisServices; }
//@proof bases setup=bases
PROOF(bases){
	int u=vp_pick("u",6), v=vp_pick("v",2); USE_SETUP(bases); Writer& w=*g_bw; BasisServices& s=*g_bs; s.w=w.w; typedef const float B[4][4]; float other[16]; for(int k=0;k<16;++k) other[k]=g_specBasis[4][k]; int diff=u<5 ? 0 : vp_pick("diff",3); other[diff==0?0:diff==1?7:15]=5;
	const float* a=u<5 ? g_specBasis[u] : other; const float* b=g_specBasis[(u+v)%5]; static const char* nm[5]={"bezier","b-spline","catmull-rom","hermite","power"};
	w.r().Basis(*(B*)a,3,*(B*)b,1); int n=copyOut(w.f); ParseRec r; run(n,r,s); Rec e; e.Basis(*(B*)a,3,*(B*)b,1); vp_assert(r.calls==1 && sameTrace(r.t,e.t),"a basis reads back with the same values");
	if(u<5){ RtConstBasis* q=w.w->getBasis(nm[u]); bool ok=true; for(int k=0;k<16;++k) ok&=(&(**q)[0])[k]==a[k]; vp_assert(ok,"standard basis names denote the RI bases"); }
}
// parameters: inline declarations exactly when needed, all classes and types
struct DictServices : public ParseServices { TokenDict d; virtual Ri::TypeSpec getDeclaration(RtConstToken t,const char** b,const char** e) const { return d.lookup(t,b,e); } };
struct DictRec : public Rec { DictServices* s; virtual RtVoid Declare(RtConstString n,RtConstString t){ Rec::Declare(n,t); s->d.declare(n,t); } };
static DictServices* g_ds; static Writer* g_dw;
SETUP(dict){ g_ds=new DictServices; g_dw=new Writer(true); }
//@proof params setup=dict shards=2
PROOF(params){
	typedef Ri::TypeSpec T; static const T::IClass cl[]={T::Constant,T::Uniform,T::Varying,T::Vertex,T::FaceVarying,T::FaceVertex}; static const char* cn[]={"constant","uniform","varying","vertex","facevarying","facevertex"};
	static const T::Type ty[]={T::Float,T::Point,T::Color,T::Integer,T::String,T::Vector,T::Normal,T::HPoint,T::Matrix}; static const char* tn[]={"float","point","color","integer","string","vector","normal","hpoint","matrix"}; static const int as[]={1,2,16};
	int c=vp_pick("class",6), q=vp_pick("type",9); USE_SETUP(dict); DictServices& s=*g_ds; Writer& w=*g_dw; DictRec r; r.s=&s; Rec e; int x=symi("x"); float f=symf("f"); const char* str[1]={"v"}; g_intClass=3; g_intClass=-1; vp_assume(x>0x1000000);
	for(int a=0;a<3;++a){ T spec(cl[c],ty[q],as[a]); bool isF=spec.storageType()==T::Float, isI=spec.storageType()==T::Integer; const char* names[3]={"nn","mm","s"};
		if(a!=1){ std::string d=std::string(cn[c])+" "+tn[q]; if(as[a]!=1) d+=as[a]==16 ? "[16]" : "[2]"; w.r().Declare("nn",d.c_str()); e.Declare("nn",d.c_str()); }
		for(int k=0;k<3;++k){ Ri::Param pr=isF ? Ri::Param(spec,names[k],Ri::FloatArray(&f,1)) : isI ? Ri::Param(spec,names[k],Ri::IntArray(&x,1)) : Ri::Param(spec,names[k],Ri::StringArray(str,1)); w.r().Points(Ri::ParamList(&pr,1)); e.Points(Ri::ParamList(&pr,1)); } }
	int n=copyOut(w.f); vp_assert(n<2400,"spec buffer"); run(n,r,s); vp_assert(g_nerr==0 && sameTrace(r.t,e.t),"parameters read back with the same name, class, type, array size and value");
}
// comments and verbatim text
//@proof records setup=binary
PROOF(records){
	USE_SETUP(binary); Writer& b=*g_bw; Writer a(false); ParseServices& s=*g_ps1; unsigned char c=vp_u8("c"); vp_assume(c!='#'&&c!='\n'&&c!='\r'&&c!=0&&c<128); char t[3]={(char)c,'z',0};
	for(int k=0;k<2;++k){ Writer& w=k?a:b; w.r().ArchiveRecord("comment",t); w.r().ArchiveRecord("structure",t); w.r().ArchiveRecord("verbatim","FrameBegin 7\n"); w.r().FrameEnd(); int n=copyOut(w.f); ParseRec r; run(n,r,s); Rec e; e.ArchiveRecord("comment",t); e.ArchiveRecord("structure",t); e.FrameBegin(7); e.FrameEnd(); vp_assert(g_nerr==0 && sameTrace(r.t,e.t),"comments and verbatim records read back in order"); }
}
