// Specification side of the RIB parser contracts: RIB bytes of a request, services and recording renderer used while parsing.
#include "contract.h"
#include "ribstream.h"
#include "ostream_model.h"
#define VP_BITFLOAT
#include "ri_common.h"
#include "libs/riutil/ribtokenizer.cpp"
#include "libs/riutil/ribinputbuffer.cpp"
#include "libs/riutil/riblexer.cpp"
#include "libs/riutil/primvartoken.cpp"
#include "libs/riutil/ribparser.cpp"
// specification side: RIB bytes of a request (RI specification, appendix C)
struct BinW {
	int n; int variant; BinW(int v):n(0),variant(v){}
	void b(int c){ g_data[n++]=(unsigned char)c; }
	void be(uint32_t u){ b(u>>24); b((u>>16)&255); b((u>>8)&255); b(u&255); }
	void R(const char* s){ for(;*s;++s) b(*s); b(' '); }
	void I(int i){ b(0203); be((uint32_t)i); }
	void F(float f){ b(0244); be(vp_bits(f)); }
	void S(const char* s){ int k=strlen(s); if(k<16) b(0220+k); else { b(0240); b(k); } for(int j=0;j<k;++j) b(s[j]); }
	void N(const char* s){ S(s); }
	void IA(const Ri::IntArray& a){ b('['); for(size_t j=0;j<a.size();++j) I(a[j]); b(']'); }
	void FA(const Ri::FloatArray& a){ if(variant){ b(0310); b(a.size()); for(size_t j=0;j<a.size();++j) be(vp_bits(a[j])); } else { b('['); for(size_t j=0;j<a.size();++j) F(a[j]); b(']'); } }
	void SA(const Ri::StringArray& a){ b('['); for(size_t j=0;j<a.size();++j) S(a[j]); b(']'); }
	void fl(const float* f,int k){ for(int j=0;j<k;++j) F(f[j]); }
	void arr(const float* f,int k){ FA(Ri::FloatArray(f,k)); }
	void fix(const float* f,int k){ if(variant) arr(f,k); else fl(f,k); }
	void basis(const float* f){ arr(f,16); }
	void open(){ if(variant) b('['); } void close(){ if(variant) b(']'); }
	void proc(Args& A){ S("RunProgram"); b('['); S("prog arg"); S("data"); b(']'); arr(A.b[0],6); }
	void P(const Ri::ParamList& l){ static const char* cls[]={"constant","uniform","varying","vertex","facevarying","facevertex"};
		for(size_t j=0;j<l.size();++j){ const Ri::Param& q=l[j]; char t[64]; int k=0; const char* c="";
			switch(q.spec().iclass){ case Ri::TypeSpec::Constant: c=cls[0]; break; case Ri::TypeSpec::Uniform: c=cls[1]; break; case Ri::TypeSpec::Varying: c=cls[2]; break; case Ri::TypeSpec::Vertex: c=cls[3]; break; default: break; }
			for(;*c;++c) t[k++]=*c; t[k++]=' '; switch(q.spec().type){ case Ri::TypeSpec::Color: c="color"; break; case Ri::TypeSpec::Float: c="float"; break; case Ri::TypeSpec::Int: c="int"; break; case Ri::TypeSpec::String: c="string"; break; default: c="?"; }
			for(;*c;++c) t[k++]=*c; if(q.spec().arraySize!=1){ t[k++]='['; t[k++]='0'+q.spec().arraySize; t[k++]=']'; } t[k++]=' '; for(c=q.name();*c;++c) t[k++]=*c; if(variant&&j<3) t[k++]=' '; t[k]=0; S(t);
			switch(q.spec().storageType()){ case Ri::TypeSpec::Float: FA(q.floatData()); break; case Ri::TypeSpec::Integer: IA(q.intData()); break; case Ri::TypeSpec::String: SA(q.stringData()); break; default: break; } } }
};
static const char* g_lastFilter; static const char* g_lastErr; static const char* g_lastSub; static char g_nameBuf[3][24]; static const float g_bezier[16]={-1,3,-3,1,3,-6,3,0,-3,3,0,0,1,0,0,0}; static int g_nerr; static int g_lookups;
static void keep(int k,const char* s){ int j=0; for(;s[j]&&j<23;++j) g_nameBuf[k][j]=s[j]; g_nameBuf[k][j]=0; }
struct CountErr : public Ri::ErrorHandler { CountErr():ErrorHandler(Ri::ErrorHandler::Message){} protected: virtual void dispatch(int,const std::string&){ ++g_nerr; } };
struct ParseServices : public StubServices {
	CountErr cerr2; RibParser* parser; ParseServices():parser(RibParser::create(*this)){} ~ParseServices(){ delete (RibParserImpl*)parser; }
	virtual Ri::ErrorHandler& errorHandler(){ ++g_nerr; return cerr2; }
	virtual RtFilterFunc getFilterFunc(RtConstToken n) const { keep(0,n); return vpFilterFunc; }
	virtual RtErrorFunc getErrorFunc(RtConstToken n) const { keep(1,n); return vpErrorFunc; }
	virtual RtProcSubdivFunc getProcSubdivFunc(RtConstToken n) const { keep(2,n); return strcmp(n,"RunProgram") ? 0 : vpSubdivFunc; }
	virtual RtConstBasis* getBasis(RtConstToken n) const { return strcmp(n,"bezier") ? 0 : (RtConstBasis*)g_bezier; }
	virtual Ri::TypeSpec getDeclaration(RtConstToken t,const char** b,const char** e) const { ++g_lookups; Ri::TypeSpec s=parseDeclaration(t,b,e); if(s.type==Ri::TypeSpec::Unknown){ AQSIS_THROW_XQERROR(XqValidation,EqE_BadToken,"undeclared"); } return s; }
};
static bool g_procOk;
// recording renderer which also looks at the procedural data block
struct ParseRec : public Rec {
	virtual RtVoid Procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc refineproc, RtProcFreeFunc freeproc){
		char** d=(char**)data; g_procOk=!strcmp(d[0],"prog arg") && !strcmp(d[1],"data"); begin(P_Procedural); t.fl(bound,6); t.p((const void*)refineproc); freeproc(data); }
	using Rec::Procedural;
};
static void run(int len,Ri::Renderer& r,ParseServices& s){ g_nerr=0; g_lookups=0; g_len=len; g_chunk=0; g_nameBuf[0][0]=g_nameBuf[1][0]=g_nameBuf[2][0]=0; ByteStream bs; s.parser->parseStream(bs.s(),"x",r); }
static void expect(int p,Rec& e){
	if(p==P_Procedural){ e.begin(P_Procedural); e.t.fl(g_args.b[0],6); e.t.p((const void*)vpSubdivFunc); return; }
	if(p==P_ReadArchive){ e.ReadArchive(g_args.s[0],0,g_args.pl); return; }
	callProc(p,e,g_args);
}
// one parser serves all cases of a contract
static ParseServices* g_ps1;
SETUP(parser){ g_ps1=new ParseServices; }
