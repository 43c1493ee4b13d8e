// The renderer, options and micropolygons that a bucket processor works with, reduced to what it reads.
#include <new>
#include "shadervariable.h"
#include "libs/math/matrix.cpp"
#include "libs/math/color.cpp"
#include "libs/math/random.cpp"
#undef N
#undef M
#include "libs/core/csgtree.cpp"
#include "libs/core/bound.cpp"
#include "libs/core/imagepixel.cpp"
#include "libs/core/micropolygon.cpp"
#include "libs/core/occlusion.cpp"
#include "libs/core/bucketprocessor.cpp"
#include "libs/core/bucket.cpp"
#include "libs/core/imagebuffer.cpp"
#include "libs/core/optioncache.cpp"
#include "libs/core/renderer.cpp"
namespace Aqsis { void gStats_IncI(TqInt){} void gStats_DecI(TqInt){} TqInt gStats_getI(TqInt){ return 0; } void gStats_setI(TqInt,TqInt){} TqFloat gStats_getF(TqInt){ return 0; } void gStats_setF(TqInt,TqFloat){}
TqFloat CqStats::m_floatVars[_Last_float]; TqInt CqStats::m_intVars[_Last_int]; }
using namespace Aqsis;

static float oneFilter(float,float,float,float){ return 1; }
struct Opts : IqOptions {
	float shutter[2],exposure[2],crop[4],filtw[2],clip[2]; int res[2],samp[2],bsize[2],proj,mode,jitter; RtFilterFunc filter; bool cacheable;
	Opts(){ shutter[0]=shutter[1]=0; exposure[0]=exposure[1]=1; crop[0]=crop[2]=0; crop[1]=crop[3]=1; filter=oneFilter; res[0]=res[1]=0; filtw[0]=filtw[1]=1; clip[0]=0; clip[1]=1e6f; samp[0]=samp[1]=1; bsize[0]=bsize[1]=2; proj=0; mode=DMode_RGB; jitter=0; }
	const float* GetFloatOption(const char*,const char* p) const{ return p[0]=='S'?shutter:p[0]=='E'?exposure:p[0]=='C'&&p[1]=='r'?crop:p[0]=='C'&&p[1]=='l'?clip:p[0]=='F'?filtw:0; } const int* GetIntegerOption(const char*,const char* p) const{ return p[0]=='R'?res:p[0]=='P'&&p[1]=='i'?samp:p[0]=='P'?&proj:p[0]=='D'?&mode:p[0]=='j'?&jitter:p[0]=='b'&&p[6]=='s'?bsize:0; } const CqString* GetStringOption(const char*,const char*) const{ return 0; } const CqVector3D* GetPointOption(const char*,const char*) const{ return 0; } const CqColor* GetColorOption(const char*,const char*) const{ return 0; }
	float* GetFloatOptionWrite(const char*,const char*,int){ return 0; } int* GetIntegerOptionWrite(const char*,const char*,int){ return 0; } CqString* GetStringOptionWrite(const char*,const char*,int){ return 0; } CqVector3D* GetPointOptionWrite(const char*,const char*,int){ return 0; } CqColor* GetColorOptionWrite(const char*,const char*,int){ return 0; }
	EqVariableType getParameterType(const char*,const char*) const{ return type_invalid; } EqVariableClass getParameterClass(const char*,const char*) const{ return class_invalid; } TqUint getParameterSize(const char*,const char*) const{ return 0; } TqInt getParameterArraySize(const char*,const char*) const{ return 0; }
	void InitialiseCamera(){} RtFilterFunc funcFilter() const{ return filter; } void SetfuncFilter(const RtFilterFunc){} void SetpshadImager(const boost::shared_ptr<IqShader>&){} boost::shared_ptr<IqShader> pshadImager() const{ return boost::shared_ptr<IqShader>(); }
	void InitialiseColorImager(const CqRegion&,IqChannelBuffer*){} CqColor GetColorImager(float,float){ return CqColor(0.0f); } CqColor GetOpacityImager(float,float){ return CqColor(0.0f); } float GetAlphaImager(float,float){ return 0; }
	boost::filesystem::path findRiFile(const std::string&,const char*) const{ return boost::filesystem::path(); } boost::filesystem::path findRiFileNothrow(const std::string&,const char*) const{ return boost::filesystem::path(); }
};
static IqOptionsPtr* g_opts;
// a renderer which is never constructed: only the members below are read
static IqDDManager* g_dd; struct RendOpt { virtual const IqOptionsPtr opt() const; virtual IqDDManager* dd(){ return g_dd; } }; const IqOptionsPtr RendOpt::opt() const { return *g_opts; }
extern "C" void* _ZTV7RendOpt[]; static void* g_rendvt[256];
template<class F> static int slotOf(F f){ union{ F f; long n[2]; } u; u.f=f; return (u.n[0]-1)/8; }
static char g_rend[sizeof(CqRenderer)] __attribute__((aligned(16)));
static CqRenderer& renderer(Opts& o,int x0,int y0,int x1,int y1){
	g_rendvt[slotOf(&CqRenderer::poptCurrent)]=_ZTV7RendOpt[2]; g_rendvt[slotOf(&CqRenderer::pDDmanager)]=_ZTV7RendOpt[3]; *(void***)g_rend=g_rendvt; CqRenderer& r=*(CqRenderer*)g_rend; pCurrRenderer=&r; g_opts=new IqOptionsPtr(&o,[](IqOptions*){});
	r.m_cropWindowXMin=x0; r.m_cropWindowYMin=y0; r.m_cropWindowXMax=x1; r.m_cropWindowYMax=y1; r.m_UsingDepthOfField=false; r.m_pProgressHandler=0; r.m_OutputDataTotalSize=9; r.m_OutputDataOffset=9; new(&r.m_OutputDataEntries) std::map<std::string,CqRenderer::SqOutputDataEntry>();
	return r;
}
static SqOptionCache optCache(float fx,float fy,int xs,int ys,int bw,int bh){ SqOptionCache c; c.xFiltSize=fx; c.yFiltSize=fy; c.xSamps=xs; c.ySamps=ys; c.xBucketSize=bw; c.yBucketSize=bh; c.clipNear=0; c.clipFar=1e6f; c.zThreshold=CqColor(1.0f); c.displayMode=DMode_RGB; return c; }
// samples given by the contract
struct Smp : IqSampler { std::vector<CqVector2D> pos,dof; std::vector<float> t,lod; std::vector<int> sh; int k2,k1; Smp(int n):pos(n),dof(n),t(n),lod(n),sh(n),k2(0),k1(0){ for(int i=0;i<n;++i) sh[i]=i; } const CqVector2D* get2DSamples(){ return k2++&1?&dof[0]:&pos[0]; } const float* get1DSamples(){ return k1++&1?&lod[0]:&t[0]; } const int* getShuffledIndices(){ return &sh[0]; } };
static float g_nolod[2]={-1,-1};
struct Grid : CqMicroPolyGridBase {
	bool csg; Grid():csg(false){ m_CurrentGridInfo.lodBounds=g_nolod; m_CurrentGridInfo.matteFlag=0; m_CurrentGridInfo.usesDataMap=false; m_CurrentGridInfo.useSmoothShading=false; }
	SqGridInfo& info(){ return m_CurrentGridInfo; }
	void Split(long,long,long,long){} void Shade(bool){} void TransferOutputVariables(){} void DeleteVariables(bool){} CqSurface* pSurface() const{ return 0; } const IqConstAttributesPtr pAttributes() const{ return IqConstAttributesPtr(); } bool usesCSG() const{ return csg; } boost::shared_ptr<CqCSGTreeNode> pCSGNode() const{ return boost::shared_ptr<CqCSGTreeNode>(); }
	TqInt uGridRes() const{ return 1; } TqInt vGridRes() const{ return 1; } TqUint numMicroPolygons(TqInt a,TqInt b) const{ return a*b; } TqUint numShadingPoints(TqInt a,TqInt b) const{ return (a+1)*(b+1); } bool hasValidDerivatives() const{ return true; }
	IqShaderData* pVar(TqInt){ return 0; } IqShaderData* FindStandardVar(const char*){ return 0; } boost::shared_ptr<IqShaderExecEnv> pShaderExecEnv(){ return boost::shared_ptr<IqShaderExecEnv>(); }
};
// a micropolygon with a given bound which hits exactly one given sample (or every one), at a given depth
struct MP : CqMicroPolygon {
	const SqSampleData* only; bool byPos; CqVector2D at; float depth; CqColor col,opa; bool opaque; mutable int asked; mutable float askedTime; mutable bool hit;
	std::vector<CqBound> sub; std::vector<float> times; bool moving;
	MP(CqMicroPolyGridBase* g,const CqBound& b):CqMicroPolygon(g,0),only(0),byPos(false),depth(5),col(1.0f),opa(1.0f),opaque(true),asked(0),askedTime(-1),hit(true),moving(false){ m_Bound=b; }
	void* operator new(size_t n){ return malloc(n); } void operator delete(void* p){ free(p); }
	bool Sample(CqHitTestCache&,SqSampleData const& s,TqFloat& D,CqVector2D& uv,TqFloat time,bool) const{ if(only && &s!=only) return false; if(byPos && !(s.position.x()==at.x() && s.position.y()==at.y())) return false; ++asked; askedTime=time; D=depth; uv=CqVector2D(0,0); return hit; }
	void CacheHitTestValues(CqHitTestCache&,bool) const{} void CacheOutputInterpCoeffs(SqMpgSampleInfo& c) const{ c.isOpaque=opaque; } void InterpolateOutputs(const SqMpgSampleInfo&,const CqVector2D&,CqColor& c,CqColor& o) const{ c=col; o=opa; }
	TqInt cSubBounds(TqUint){ return moving?sub.size():1; } CqBound SubBound(TqInt i,TqFloat& t) const{ if(!moving){ t=0; return GetBound(); } t=times[i]; return sub[i]; } bool IsMoving() const{ return moving; }
};
static void place(CqBucket& b,int x,int y,int w,int h){ b.setPosition(x,y); b.setSize(w,h); b.setCol(0); b.setRow(0); }
static CqBucketProcessor& processor(const SqOptionCache& c){ return *new CqBucketProcessor(*new CqImageBuffer,c); }
static CqImagePixel& pixelAt(CqBucketProcessor& bp,int x,int y){ const CqRegion& r=bp.DataRegion(); return *bp.pixels()[(y-r.yMin())*r.width()+x-r.xMin()]; }
