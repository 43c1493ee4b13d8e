// Specification-side model of an RI request: argument record, recording renderer, comparison of call traces.
#include <cstring>
#include <cfloat>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/errorhandler.h>
#include <aqsis/util/exception.h>
using namespace Aqsis;
static bool g_traceOff=false; // count calls only (array contents not under contract)
struct Trace {
	uint64_t v[160]; int n; Trace():n(0){}
	void i(int64_t x){ v[n++]=(uint64_t)x; }
	void f(float x){ v[n++]=vp_bits(x); }
	void p(const void* x);

	void put(RtInt x){ i(x); } void put(RtBoolean x){ i(x); } void put(RtFloat x){ f(x); }
	void put(const char* s){ if(!s){ i(-77); return; } int k=0; for(;s[k];++k) i((unsigned char)s[k]); i(0); }
	void fl(const float* x,int k){ for(int j=0;j<k;++j) f(x[j]); }
	void put(const Ri::IntArray& a){ if(g_traceOff) return; i(a.size()); for(size_t j=0;j<a.size();++j) i(a[j]); }
	void put(const Ri::FloatArray& a){ if(g_traceOff) return; i(a.size()); for(size_t j=0;j<a.size();++j) f(a[j]); }
	void put(const Ri::StringArray& a){ if(g_traceOff) return; i(a.size()); for(size_t j=0;j<a.size();++j) put(a[j]); }
	void put(const Ri::ParamList& l){ if(g_traceOff) return; i(l.size()); for(size_t j=0;j<l.size();++j){ const Ri::Param& q=l[j]; i(q.spec().iclass); i(q.spec().type); i(q.spec().arraySize); put(q.name());
		switch(q.spec().storageType()){ case Ri::TypeSpec::Float: put(q.floatData()); break; case Ri::TypeSpec::Integer: put(q.intData()); break; case Ri::TypeSpec::String: put(q.stringData()); break; default: i(q.size()); } } }
};
static bool sameTrace(const Trace& a,const Trace& b){ if(a.n!=b.n) return false; bool ok=true; for(int i=0;i<a.n;++i) ok = ok & (a.v[i]==b.v[i]); return ok; }
static RtFloat vpFilterFunc(RtFloat,RtFloat,RtFloat,RtFloat){ return 0; }
static RtVoid vpErrorFunc(RtInt,RtInt,char*){}
static RtVoid vpSubdivFunc(RtPointer,RtFloat){}
static RtVoid vpFreeFunc(RtPointer){}
static RtVoid vpArchiveCallback(RtToken,char*,...){}
static char g_ptrTarget[8];
inline void Trace::p(const void* x){ i(x==(const void*)g_ptrTarget ? 7 : x==(const void*)vpFilterFunc ? 1 : x==(const void*)vpErrorFunc ? 2 : x==(const void*)vpSubdivFunc ? 3 : x==(const void*)vpFreeFunc ? 4 : x==(const void*)vpArchiveCallback ? 5 : x==0 ? 0 : 9); }
struct Args {
	float f[12]; int i[8]; const char* s[8]; Ri::IntArray ia[6]; Ri::FloatArray fa[8]; Ri::StringArray sa[2]; float c[2][3]; float b[2][6]; float m[2][4][4]; Ri::ParamList pl;
};
#include "ri_gen.h"
static Args g_args; static int g_iabuf[6][4]; static float g_fabuf[8][16]; static const char* g_sabuf[2][2];
static const char* const g_strs[]={"alpha","b","gamma3","dd","eps","z7","theta","k"};
#ifdef VP_BITFLOAT // floats are only moved around: arbitrary bit patterns
static float symf(const char* n){ uint32_t u=vp_u32(n); float x; memcpy(&x,&u,4); return x; }
#else
static float symf(const char* n){ float x=vp_f32(n); vp_assume(x==x); return x; }
#endif
// integers of one encoded size (0..3: bytes needed minus one), or any integer (-1)
static int g_intClass=-1;
static int symi(const char* n){ int x=vp_i32(n); uint32_t u=(uint32_t)x; if(g_intClass>=0){ vp_assume(g_intClass==3 || u<(256u<<(8*g_intClass))); vp_assume(g_intClass==0 || u>=(1u<<(8*g_intClass))); } return x; }
static int symi16(const char* n){ int x=vp_i16(n); if(g_intClass>=0) vp_assume(g_intClass==0 ? (x>=0&&x<256) : g_intClass==3 ? x<0 : x>=256); return x; }
// arbitrary scalar arguments, fixed distinct strings, short arrays with arbitrary contents
static void symArgs(int p,int alen){
	Args& A=g_args;
	for(int k=0;k<g_n_f[p];++k) A.f[k]=symf("f");
	for(int k=0;k<g_n_i[p];++k) A.i[k]=symi16("i");
	for(int k=0;k<g_n_s[p];++k) A.s[k]=g_strs[k];
	for(int k=0;k<g_n_ia[p];++k){ for(int j=0;j<alen;++j) g_iabuf[k][j]=symi("ia"); A.ia[k]=Ri::IntArray(g_iabuf[k],alen); }
	for(int k=0;k<g_n_fa[p];++k){ for(int j=0;j<alen;++j) g_fabuf[k][j]=symf("fa"); A.fa[k]=Ri::FloatArray(g_fabuf[k],alen); }
	for(int k=0;k<g_n_sa[p];++k){ g_sabuf[k][0]="q1"; g_sabuf[k][1]="r"; A.sa[k]=Ri::StringArray(g_sabuf[k],alen>2?2:alen); }
	for(int k=0;k<g_n_c[p];++k) for(int j=0;j<3;++j) A.c[k][j]=symf("c");
	for(int k=0;k<g_n_b[p];++k) for(int j=0;j<6;++j) A.b[k][j]=symf("b");
	for(int k=0;k<g_n_m[p];++k) for(int j=0;j<16;++j) A.m[k][j/4][j%4]=symf("m");
	A.pl=Ri::ParamList();
}
static Ri::Param g_params[4]; static float g_pf[64]; static int g_pi[4]; static const char* g_ps[2];
struct NullErr : public Ri::ErrorHandler { NullErr():ErrorHandler(Ri::ErrorHandler::Message){} protected: virtual void dispatch(int,const std::string&){} };
// renderer services visible to a filter: message sink, recorded first filter
struct StubServices : public Ri::RendererServices {
	NullErr err; Ri::Renderer* first; StubServices():first(0){}
	virtual Ri::ErrorHandler& errorHandler(){ return err; }
	virtual RtFilterFunc getFilterFunc(RtConstToken) const { return vpFilterFunc; }
	virtual RtConstBasis* getBasis(RtConstToken) const { static RtBasis b; return (RtConstBasis*)&b; }
	virtual RtErrorFunc getErrorFunc(RtConstToken) const { return vpErrorFunc; }
	virtual RtProcSubdivFunc getProcSubdivFunc(RtConstToken) const { return vpSubdivFunc; }
	virtual Ri::TypeSpec getDeclaration(RtConstToken,const char**,const char**) const { return Ri::TypeSpec(); }
	virtual Ri::Renderer& firstFilter(){ return *first; }
	virtual void addFilter(const char*,const Ri::ParamList&){}
	virtual void addFilter(Ri::Filter&){}
	virtual void parseRib(std::istream&,const char*,Ri::Renderer&){}
};
static void setArgs(int p,int alen){ // concrete arguments inside every documented range
	Args& A=g_args; static const float fs[]={0.25f,0.5f,0.6f,0.8f,3,4,5,6,7,8,9,10};
	for(int k=0;k<12;++k) A.f[k]=fs[k]; for(int k=0;k<8;++k){ A.i[k]=k+1; A.s[k]=g_strs[k]; }
	for(int k=0;k<6;++k){ for(int j=0;j<4;++j) g_iabuf[k][j]=1; A.ia[k]=Ri::IntArray(g_iabuf[k],alen); }
	for(int k=0;k<8;++k){ for(int j=0;j<16;++j) g_fabuf[k][j]=j; A.fa[k]=Ri::FloatArray(g_fabuf[k],alen); }
	for(int k=0;k<2;++k){ g_sabuf[k][0]="q1"; g_sabuf[k][1]="r"; A.sa[k]=Ri::StringArray(g_sabuf[k],alen>2?2:alen); }
	for(int k=0;k<2;++k){ for(int j=0;j<3;++j) A.c[k][j]=j; for(int j=0;j<6;++j) A.b[k][j]=j; for(int j=0;j<16;++j) A.m[k][j/4][j%4]=j; }
	A.pl=Ri::ParamList();
	if(p==P_PixelSamples||p==P_MakeTexture||p==P_MakeLatLongEnvironment||p==P_MakeCubeFaceEnvironment){ A.f[0]=1; A.f[1]=2; A.f[2]=2; }
	if(p==P_ReadArchive) A.s[0]="x.rib";
}

// a parameter list with one parameter of every storage type, arbitrary values
static char g_pstr[2][4]; static char g_pname[4][4];
static void symParams(int n){
	for(int k=0;k<6;++k) g_pf[k]=symf("pf"); for(int k=0;k<3;++k) g_pi[k]=symi("pi"); for(int k=0;k<2;++k){ g_pstr[k][0]='a'+k; g_pstr[k][1]=k?'x':0; g_pstr[k][2]=0; g_ps[k]=g_pstr[k]; }
	for(int k=0;k<4;++k){ g_pname[k][0]='p'; g_pname[k][1]='0'+k; g_pname[k][2]=0; }
	g_params[0]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Varying,Ri::TypeSpec::Color,2),g_pname[0],Ri::FloatArray(g_pf,6));
	g_params[1]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform,Ri::TypeSpec::Int,1),g_pname[1],Ri::IntArray(g_pi,3));
	g_params[2]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Constant,Ri::TypeSpec::String,1),g_pname[2],Ri::StringArray(g_ps,2));
	g_params[3]=Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Vertex,Ri::TypeSpec::Float,1),g_pname[3],Ri::FloatArray(g_pf,0));
	g_args.pl=Ri::ParamList(g_params,n);
}
// overwrite everything a request's arguments pointed to
static void clobberArgs(){
	for(int k=0;k<6;++k) for(int j=0;j<4;++j) g_iabuf[k][j]=-12345; for(int k=0;k<8;++k) for(int j=0;j<16;++j) g_fabuf[k][j]=-777; for(int k=0;k<2;++k) for(int j=0;j<2;++j) g_sabuf[k][j]="clobbered";
	for(int k=0;k<2;++k){ for(int j=0;j<3;++j) g_args.c[k][j]=-9; for(int j=0;j<6;++j) g_args.b[k][j]=-9; for(int j=0;j<16;++j) g_args.m[k][j/4][j%4]=-9; }
	for(int k=0;k<6;++k) g_pf[k]=-5; for(int k=0;k<3;++k) g_pi[k]=-5; for(int k=0;k<2;++k){ g_pstr[k][0]='!'; g_ps[k]="clobbered"; } for(int k=0;k<4;++k){ g_pname[k][0]='!'; g_params[k]=Ri::Param(); }
}
