// C07: every RIB request reaches the renderer as the same RI call -- contracts on RibParserImpl (parseStream, all request handlers, readParamList, getBasis) down to the byte stream.
//@flags -DAQSIS_RIUTIL_EXPORTS -I/repo/libs/riutil
//@default replace="ISTREAM" iters=400
//@assume std::istream::get/peek/unget/readsome behave as documented (trusted stub in contracts/ribstream.h); text of error messages is outside the contract
#include "rib_parse.h"
// one request written according to the RI specification is executed once with exactly the written arguments, followed by the next request
//@proof request shards=3 setup=parser
PROOF(request){
	int p=vp_pick("proc",NPROC); setArgs(p,2); symArgs(p,2); if(g_hasParams[p]) symParams(4); USE_SETUP(parser); ParseServices& s=*g_ps1; int k=vp_i32("k");
	for(int v=0;v<2;++v){
	BinW w(v); writeProc(p,w,g_args); w.R("FrameBegin"); w.I(k); ParseRec r; g_procOk=true; run(w.n,r,s);
	Rec e; expect(p,e); e.FrameBegin(k);
	vp_assert(r.calls==2 && sameTrace(r.t,e.t),"a request is executed once with the arguments written"); vp_assert(g_nerr==0,"a well formed request raises no error"); vp_assert(g_procOk,"a procedural gets its argument strings");
	if(p==P_PixelFilter||p==P_MakeTexture||p==P_MakeLatLongEnvironment||p==P_MakeCubeFaceEnvironment) vp_assert(!strcmp(g_nameBuf[0],"gaussian"),"filters are looked up by name");
	if(p==P_ErrorHandler) vp_assert(!strcmp(g_nameBuf[1],"print"),"error handlers are looked up by name");
	}
}
// a request cut short is an error: nothing is executed for it, and the next request is
static void truncatedOne(int p,ParseServices& s){
	setArgs(p,2); BinW w(0); writeProc(p,w,g_args); int need=w.n; // cut the last argument token
	if(p==P_SubdivisionMesh){ BinW q(0); q.R("SubdivisionMesh"); q.S("x"); q.IA(g_args.ia[0]); need=q.n; w.n=q.n; q.n=0; }
	else { // last token boundary
		int last=-1, i=0; while(g_data[i]!=' ') ++i; ++i; while(i<need){ last=i; int c=g_data[i]; if(c==0203||c==0244) i+=5; else if(c>=0220&&c<0240) i+=1+(c-0220); else if(c=='['){ while(g_data[i]!=']'){ int d=g_data[i]; if(d==0203||d==0244) i+=5; else if(d>=0220&&d<0240) i+=1+(d-0220); else ++i; } ++i; } else ++i; }
		if(last<0 || p==P_DepthOfField) return; need=last; }
	w.n=need; w.R("FrameBegin"); w.I(77); ParseRec r; run(w.n,r,s); Rec e; e.FrameBegin(77);
	vp_assert(r.calls==1 && sameTrace(r.t,e.t),"a request with missing arguments is not executed and does not disturb the next"); vp_assert(g_nerr>0,"missing arguments are reported");
}
//@proof truncated shards=2 setup=parser
PROOF(truncated){ int g=vp_pick("group",6); USE_SETUP(parser); ParseServices& s=*g_ps1; for(int p=g*18;p<g*18+18;++p) truncatedOne(p,s); }
// special forms of the RIB binding
//@proof forms setup=parser
PROOF(forms){
	int m=vp_pick("form",14); BinW w(0); USE_SETUP(parser); ParseServices& s=*g_ps1; ParseRec r; Rec e; bool err=false; float f=symf("f"), g=symf("g"); int k=vp_i32("k"); float c[3]={f,g,1};
	if(m==0){ w.R("DepthOfField"); e.DepthOfField(FLT_MAX,FLT_MAX,FLT_MAX); }
	if(m==1){ w.R("SubdivisionMesh"); w.S("catmull-clark"); int a[2]={4,k}; w.IA(Ri::IntArray(a,2)); w.IA(Ri::IntArray(a,1)); e.SubdivisionMesh("catmull-clark",Ri::IntArray(a,2),Ri::IntArray(a,1),Ri::StringArray(),Ri::IntArray(),Ri::IntArray(),Ri::FloatArray(),Ri::ParamList()); }
	if(m==2){ w.R("Basis"); w.S("bezier"); w.I(3); w.S("bezier"); w.I(k); typedef const float B[4][4]; e.Basis(*(B*)g_bezier,3,*(B*)g_bezier,k); }
	if(m==3){ w.R("Basis"); w.S("nope"); w.I(3); w.S("bezier"); w.I(1); err=true; }
	if(m==4){ w.R("version"); w.F(3.03f); }
	if(m==5){ w.R("NoSuchRequest"); w.F(f); w.S("x"); err=true; }
	if(m==6){ w.R("Procedural"); w.S("Nope"); w.b('['); w.S("a"); w.b(']'); float b6[6]={0}; w.arr(b6,6); err=true; }
	if(m==7){ w.R("Transform"); float t[15]={0}; w.arr(t,15); err=true; }
	if(m==8){ w.R("Sphere"); w.F(f); w.F(g); w.F(1); w.F(2); w.S("uniform float x"); w.F(f); w.S("uniform int y"); w.I(k); Ri::Param q[2]={Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform,Ri::TypeSpec::Float,1),"x",Ri::FloatArray(&f,1)),Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform,Ri::TypeSpec::Int,1),"y",Ri::IntArray(&k,1))}; e.Sphere(f,g,1,2,Ri::ParamList(q,2)); }
	if(m==9){ w.R("Sphere"); w.F(f); w.F(g); w.F(1); w.F(2); w.S("undeclaredname"); w.F(f); err=true; }
	if(m==10){ w.R("Sphere"); w.F(f); w.F(g); w.F(1); w.F(2); w.S("uniform int y"); w.F(f); err=true; }
	if(m==11){ w.R("ColorSamples"); float a[3]={1,2,3}; w.arr(a,3); w.arr(a,3); w.R("Color"); w.fl(c,1); w.R("FrameEnd"); e.FrameEnd(); }
	if(m==12){ w.R("Color"); w.fl(c,2); err=true; }
	if(m==13){ w.R("Sphere"); w.fl(c,3); w.F(1); w.F(2); err=true; }
	w.R("FrameBegin"); w.I(k); e.FrameBegin(k); run(w.n,r,s); vp_assert((g_nerr>0)==err,"exactly the malformed forms are reported");
	if(m==11) return; vp_assert(sameTrace(r.t,e.t),"special argument forms are executed as specified");
}
// light and object names may be integers: the same as the decimal text in quotes
//@proof names replace="ISTREAM;OSTREAM" shards=2
PROOF(names){
	static const int ids[]={0,1,7,42,-3,1000000,2147483647}; static const char* txt[]={"0","1","7","42","-3","1000000","2147483647"}; int m=vp_pick("req",5);
	ParseServices s; int on=vp_i16("on");
	for(int k=0;k<7;++k) for(int q=0;q<2;++q){ BinW w(0); ParseRec r; Rec e; 
	#define ID() (q ? w.S(txt[k]) : w.I(ids[k]))
	if(m==0){ w.R("ObjectBegin"); ID(); e.ObjectBegin(txt[k]); } if(m==1){ w.R("ObjectInstance"); ID(); e.ObjectInstance(txt[k]); } if(m==2){ w.R("Illuminate"); ID(); w.I(on); e.Illuminate(txt[k],(RtBoolean)on); }
	if(m==3){ w.R("LightSource"); w.S("sh"); ID(); e.LightSource("sh",txt[k],Ri::ParamList()); } if(m==4){ w.R("AreaLightSource"); w.S("sh"); ID(); e.AreaLightSource("sh",txt[k],Ri::ParamList()); }
	run(w.n,r,s); vp_assert(sameTrace(r.t,e.t) && g_nerr==0,"an integer name is the same as its decimal text"); }
}
// comments reach the renderer as archive records
PROOF(comments){
	BinW w(0); ParseServices s; ParseRec r; Rec e; unsigned char c=vp_u8("c"); vp_assume(c!='#'&&c!='\n'&&c!='\r'&&c!=0&&c<128); int structure=vp_pick("structure",2);
	w.b('#'); if(structure) w.b('#'); w.b(c); w.b('z'); w.b('\n'); w.R("FrameEnd"); char t[3]={(char)c,'z',0}; e.ArchiveRecord(structure?"structure":"comment",t); e.FrameEnd(); run(w.n,r,s);
	vp_assert(sameTrace(r.t,e.t),"a comment becomes an archive record, and the next request is executed");
}
// a nested stream read by the renderer during a request leaves the outer stream where it was
static ParseServices* g_nest; static RibParser* g_parser;
struct NestRec : public Rec { virtual RtVoid ReadArchive(RtConstToken n,RtArchiveCallback cb,const Ri::ParamList& l){ Rec::ReadArchive(n,cb,l); ByteStream b1(1); g_parser->parseStream(b1.s(),"inner",*this); } };
PROOF(nested){
	int a=vp_i32("a"), b=vp_i32("b"), c=vp_i32("c"); ParseServices s; NestRec r; Rec e; g_nerr=0; int bad=vp_pick("bad",3);
	BinW i(0); i.R("FrameBegin"); i.I(b); if(bad==1){ i.R("Sphere"); i.F(1); } if(bad==2){ i.R("Color"); i.b('['); i.F(1); } int n=i.n; for(int k=0;k<n;++k) g_src[1].data[k]=g_data[k]; g_src[1].len=n; g_src[1].chunk=0; g_src[1].pos=0;
	BinW w(0); w.R("FrameBegin"); w.I(a); w.R("ReadArchive"); w.S("f.rib"); w.R("FrameBegin"); w.I(c); g_len=w.n; g_chunk=0;
	ByteStream bs; g_parser=s.parser; g_parser->parseStream(bs.s(),"x",r);
	e.FrameBegin(a); e.ReadArchive("f.rib",0,Ri::ParamList()); e.FrameBegin(b); e.FrameBegin(c); vp_assert(sameTrace(r.t,e.t),"a nested stream is executed in place, and the outer stream continues after it");
}
