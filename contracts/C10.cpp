// C10: bounds are conservative and occlusion culling never hides a visible sample.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume coordinates of bounds are treated as real numbers in the bound_* contracts (rounding is cross-checked natively)
#include "contract.h"
#include <new>
#include "libs/math/matrix.cpp"
#include "libs/math/color.cpp"
namespace Aqsis { class CqRenderer; CqRenderer* pCurrRenderer=0; }
#include "libs/core/occlusion.cpp"
#include "libs/core/bound.cpp"
#include "libs/core/imagepixel.cpp"
using namespace Aqsis;

// ---- bounds ------------------------------------------------------------------------------------------------------
static float rf(const char* n){ return vp_f32_in(n,-8,8); }
static CqVector3D rv(const char* n){ float x=rf(n),y=rf(n),z=rf(n); return CqVector3D(x,y,z); }
static bool inside(const CqBound& b,const CqVector3D& p,float e=0){ return (p.x()>=b.vecMin().x()-e)&(p.x()<=b.vecMax().x()+e)&(p.y()>=b.vecMin().y()-e)&(p.y()<=b.vecMax().y()+e)&(p.z()>=b.vecMin().z()-e)&(p.z()<=b.vecMax().z()+e); }
static CqBound rb(const char* n){ CqVector3D a=rv(n),b=rv(n); vp_assume(a.x()<=b.x()); vp_assume(a.y()<=b.y()); vp_assume(a.z()<=b.z()); return CqBound(a,b); }
//@proof bound_encapsulate mode=real
PROOF(bound_encapsulate){
	CqBound a=rb("a"); CqVector3D p=rv("p"), q=rv("q"); bool in=inside(a,q); CqBound c;
	switch(vp_pick("op",4)){
	case 0: { CqBound b=rb("b"); bool inb=inside(b,q); c=a; c.Encapsulate(&b); vp_assert(!(in|inb)|inside(c,q),"a union bound contains both bounds"); CqVector3D lo=c.vecMin(), hi=c.vecMax();
		vp_assert(((lo.x()==a.vecMin().x())|(lo.x()==b.vecMin().x()))&((lo.y()==a.vecMin().y())|(lo.y()==b.vecMin().y()))&((lo.z()==a.vecMin().z())|(lo.z()==b.vecMin().z()))&((hi.x()==a.vecMax().x())|(hi.x()==b.vecMax().x()))&((hi.y()==a.vecMax().y())|(hi.y()==b.vecMax().y()))&((hi.z()==a.vecMax().z())|(hi.z()==b.vecMax().z())),"a union bound is no larger than needed"); break; }
	case 1: c=a; c.Encapsulate(p); vp_assert(!in|inside(c,q),"growing a bound keeps its points"); vp_assert(inside(c,p),"growing a bound includes the new point"); break;
	case 2: c=a; c.Encapsulate(CqVector2D(p.x(),p.y())); vp_assert(!in|inside(c,q),"growing a bound in 2D keeps its points"); vp_assert((p.x()>=c.vecMin().x())&(p.x()<=c.vecMax().x())&(p.y()>=c.vecMin().y())&(p.y()<=c.vecMax().y())&(c.vecMin().z()==a.vecMin().z())&(c.vecMax().z()==a.vecMax().z()),"growing a bound in 2D includes the point and keeps depth"); break;
	default: { CqBound e; e.Encapsulate(p); vp_assert(inside(e,p)&(e.vecMin().x()==p.x())&(e.vecMax().z()==p.z()),"an empty bound grows to exactly the first point"); CqBound f; f.Encapsulate(&a); vp_assert(inside(f,q)==in,"an empty bound united with a bound is that bound"); } }
}
//@proof bound_transform mode=real
PROOF(bound_transform){
	CqBound a=rb("a"); CqVector3D t(vp_f32_in("t",0,1),vp_f32_in("t",0,1),vp_f32_in("t",0,1)); CqVector3D e=a.vecMax()-a.vecMin(); CqVector3D q(a.vecMin().x()+t.x()*e.x(),a.vecMin().y()+t.y()*e.y(),a.vecMin().z()+t.z()*e.z());
	int axis=vp_pick("axis",3); float m[4][4]; for(int i=0;i<4;++i) for(int j=0;j<4;++j) m[i][j]= j==3?(i==3):(j==axis?rf("m"):(i==j)); 
	for(int i=0;i<3;++i){ int s=vp_pick("sign",2); vp_assume(s? m[i][axis]>=0 : m[i][axis]<=0); }
	CqMatrix M(m); CqBound b=a; b.Transform(M); CqVector3D r=M*q; 
	float v= axis==0?r.x():axis==1?r.y():r.z(), lo= axis==0?b.vecMin().x():axis==1?b.vecMin().y():b.vecMin().z(), hi= axis==0?b.vecMax().x():axis==1?b.vecMax().y():b.vecMax().z(); float tol=vp_is_symbolic()?0:1e-3f;
	vp_assert(v>=lo-tol,"a transformed bound contains every transformed point (lower side)"); vp_assert(v<=hi+tol,"a transformed bound contains every transformed point (upper side)");
}
//@proof bound_queries mode=real
PROOF(bound_queries){
	CqBound a=rb("a"), b=rb("b"); CqVector3D p=rv("p"); bool in2=(p.x()>=a.vecMin().x())&(p.x()<=a.vecMax().x())&(p.y()>=a.vecMin().y())&(p.y()<=a.vecMax().y());
	vp_assert(a.Contains3D(p)==inside(a,p),"Contains3D tests the closed box"); vp_assert(a.Contains2D(CqVector2D(p.x(),p.y()))==in2,"Contains2D tests the closed rectangle");
	bool sub=(b.vecMin().x()>=a.vecMin().x())&(b.vecMax().x()<=a.vecMax().x())&(b.vecMin().y()>=a.vecMin().y())&(b.vecMax().y()<=a.vecMax().y()); vp_assert(a.Contains2D(&b)==sub,"Contains2D of a bound tests inclusion of the rectangle");
	bool hit=(b.vecMin().x()<=a.vecMax().x())&(b.vecMax().x()>=a.vecMin().x())&(b.vecMin().y()<=a.vecMax().y())&(b.vecMax().y()>=a.vecMin().y());
	vp_assert(a.Intersects(CqVector2D(b.vecMin().x(),b.vecMin().y()),CqVector2D(b.vecMax().x(),b.vecMax().y()))==hit,"Intersects is true exactly when the rectangles share a point");
	float f[6]={rf("f"),rf("f"),rf("f"),rf("f"),rf("f"),rf("f")}; CqBound c(f); vp_assert((c.vecMin().x()==f[0])&(c.vecMax().x()==f[1])&(c.vecMin().y()==f[2])&(c.vecMax().y()==f[3])&(c.vecMin().z()==f[4])&(c.vecMax().z()==f[5]),"a bound is built from an RtBound");
	CqVector3D k[8]; a.getBoundCuboid(k); int n=0; for(int i=0;i<8;++i) for(int s=0;s<8;++s) n+=(k[i].x()==(s&1?a.vecMax().x():a.vecMin().x())) && (k[i].y()==(s&2?a.vecMax().y():a.vecMin().y())) && (k[i].z()==(s&4?a.vecMax().z():a.vecMin().z()));
	vp_assert(n>=8,"the cuboid has all eight corners");
}
// side of a clipping plane: never "outside" when some point of the box is strictly inside
//@proof bound_plane mode=real
PROOF(bound_plane){
	CqBound b=rb("b"); float n[4]={rf("n"),rf("n"),rf("n"),rf("n")}; CqPlane pl(n[0],n[1],n[2],n[3]); float lo=n[3],hi=n[3]; CqVector3D mn=b.vecMin(),mx=b.vecMax(); float L[3]={mn.x(),mn.y(),mn.z()},H[3]={mx.x(),mx.y(),mx.z()};
	for(int i=0;i<3;++i){ int s=vp_pick("s",2); vp_assume(s? n[i]>=0 : n[i]<=0); lo+=n[i]*(s?L[i]:H[i]); hi+=n[i]*(s?H[i]:L[i]); }
	int r=b.whichSideOf(&pl); if(!vp_is_symbolic()) vp_assume(fabsf(lo)>1e-3f && fabsf(hi)>1e-3f);
	vp_assert((r==CqBound::Side_Outside)==(hi<=0),"a bound is outside a plane exactly when all of it is"); vp_assert((r==CqBound::Side_Inside)==(lo>0),"a bound is inside a plane exactly when all of it is"); vp_assert((r==CqBound::Side_Both)==((hi>0)&(lo<=0)),"otherwise it is on both sides");
}
//@proof bound_list mode=real
PROOF(bound_list){ CqBoundList l; l.SetSize(3); CqBound b[3]={rb("b"),rb("b"),rb("b")}; float t[3]={rf("t"),rf("t"),rf("t")}; int o=vp_pick("o",3); for(int k=0;k<3;++k){ int i=(k+o)%3; l.Set(i,b[i],t[i]); } int i=vp_pick("i",3); const CqBoundList& c=l; vp_assert(l.Size()==3 && l.GetBound(i).vecMin()==b[i].vecMin() && c.GetBound(i).vecMax()==b[i].vecMax() && l.GetTime(i)==t[i],"bound lists return what was set"); l.Clear(); vp_assert(l.Size()==0,"cleared"); }

// ---- occlusion ---------------------------------------------------------------------------------------------------
// a bucket processor with just the members that the occlusion tree reads
static char g_bp[sizeof(CqBucketProcessor)] __attribute__((aligned(16)));
static CqBucketProcessor& bucket(int x0,int y0,int w,int h,int pad,int xs,int ys){
	CqBucketProcessor& b=*(CqBucketProcessor*)g_bp; SqOptionCache& o=const_cast<SqOptionCache&>(b.m_optCache); o.xSamps=xs; o.ySamps=ys;
	new(&b.m_SampleRegion) CqRegion(x0,y0,x0+w,y0+h); new(&b.m_DataRegion) CqRegion(x0-pad,y0-pad,x0+w+pad,y0+h+pad); new(&b.m_aieImage) std::vector<CqImagePixelPtr>();
	for(int i=0;i<(w+2*pad)*(h+2*pad);++i) b.m_aieImage.push_back(CqImagePixelPtr(new CqImagePixel(xs,ys)));
	return b;
}
static void freeBucket(){ CqBucketProcessor& b=*(CqBucketProcessor*)g_bp; b.m_aieImage.~vector(); }
struct Sz { int w,h,xs,ys; };
// area: any rectangle in x and y with fixed depths; depth: any depths with fixed rectangles
static void occl(Sz z,int s,int x0,int y0,bool area,int rect,bool update){
	int sx=s%(z.w*z.xs), sy=s/(z.w*z.xs); CqBucketProcessor& bp=bucket(x0,y0,z.w,z.h,1,z.xs,z.ys); CqOcclusionTree t; t.setupTree(bp);
	float d=area?4:vp_f32_near("d",0,9), nd=area?1:vp_f32_near("nd",0,9); vp_assume(d>=0 && d<=FLT_MAX); vp_assume(nd>=0 && nd<=FLT_MAX);
	for(int y=0;y<z.h*z.ys;++y) for(int x=0;x<z.w*z.xs;++x){ CqImagePixel& p=*bp.m_aieImage[(y/z.ys+1)*(z.w+2)+x/z.xs+1]; SqSampleData& s=p.SampleData((y%z.ys)*z.xs+x%z.xs); bool me=x==sx&&y==sy; t.setSampleDepth(me?d:nd,s.occlusionIndex); }
	if(update) t.updateTree();
	// a bound that contains a point of this sample's subpixel at a depth not behind the sample
	float m=(z.xs==3||z.xs==5)?1e-3f:0; float ax=x0+(float)sx/z.xs+m, bx=x0+(float)(sx+1)/z.xs-m, ay=y0+(float)sy/z.ys+m, by=y0+(float)(sy+1)/z.ys-m;
	float lx,ly,hx,hy,lz,hz;
	if(area){ float px=vp_f32_in("px",ax,bx),py=vp_f32_in("py",ay,by); lx=vp_f32_near("lx",px-3,px);ly=vp_f32_near("ly",py-3,py);hx=vp_f32_near("hx",px,px+3);hy=vp_f32_near("hy",py,py+3); vp_assume(lx<=px&&px<=hx); vp_assume(ly<=py&&py<=hy); lz=2; hz=3; }
	else { lx=rect==2?-1e9f:rect?ax:0.5f*(ax+bx); hx=rect==2?1e9f:rect?bx:lx; ly=rect==2?-1e9f:rect?ay:0.5f*(ay+by); hy=rect==2?1e9f:rect?by:ly; lz=vp_f32_near("lz",-1,d); hz=vp_f32_near("hz",lz,10); vp_assume(lz<=d&&lz<=hz); }
	CqBound b(lx,ly,lz,hx,hy,hz); vp_reach("visible");
	vp_assert(!t.canCull(b),"a bound in front of the recorded depth of a sample it covers is never culled");
	if(update){ CqBound c(lx,ly,area?5:vp_f32_near("cz",d+1,20),hx,hy,FLT_MAX); vp_assume(c.vecMin().z()>d && c.vecMin().z()>nd); vp_assert(t.canCull(c),"a bound behind every sample is culled"); }
	freeBucket();
}
#define CASES int n=0; for(Sz z:sz) n+=z.w*z.xs*z.h*z.ys; int s=vp_pick("case",n),k=0; while(s>=sz[k].w*sz[k].xs*sz[k].h*sz[k].ys){ s-=sz[k].w*sz[k].xs*sz[k].h*sz[k].ys; ++k; } Sz z=sz[k];
#define SMALL static const Sz sz[]={{1,1,1,1},{3,2,1,1},{2,3,2,1},{1,4,1,2},{2,1,3,1}}
#define LARGE static const Sz sz[]={{2,1,1,1},{1,2,1,1},{1,1,2,2},{2,2,2,2},{5,1,1,1},{1,5,2,1},{3,3,2,2},{2,1,3,4},{4,4,1,1},{1,1,4,4},{5,3,1,1}}
//@proof occlusion_area bounded="bucket sizes and sample rates of the table (1..3 pixels, 1..3 samples a side); every sample of each, every bound" shards=8 nomerge=1 budget=80
PROOF(occlusion_area){ SMALL; CASES occl(z,s,3*k-4,2-k,true,0,s%3!=2); }
//@proof occlusion_depth bounded="bucket sizes and sample rates of the table (1..3 pixels, 1..3 samples a side); every sample of each, every depth" shards=8 nomerge=1 budget=80
PROOF(occlusion_depth){ SMALL; CASES occl(z,s,3*k-4,2-k,false,s%3,s%4!=2); }
//@proof occlusion_area_more tier=thorough nomerge=1 bounded="bucket sizes and sample rates of the table (1..5 pixels, 1..4 samples a side); every sample of each, every bound" shards=8 budget=3000
PROOF(occlusion_area_more){ LARGE; CASES occl(z,s,3*k-4,2-k,true,0,s%3!=2); }
//@proof occlusion_depth_more tier=thorough nomerge=1 bounded="bucket sizes and sample rates of the table (1..5 pixels, 1..4 samples a side); every sample of each, every depth" shards=8 budget=3000
PROOF(occlusion_depth_more){ LARGE; CASES occl(z,s,3*k-4,2-k,false,s%3,s%4!=2); }
