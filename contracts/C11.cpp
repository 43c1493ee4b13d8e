// C11: the hits of a pixel sample are composited front to back, whatever order they arrive in.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume colours, opacities and depths are treated as real numbers (rounding is cross-checked natively)
#include "contract.h"
#include <new>
#include "libs/math/color.cpp"
#include "libs/core/csgtree.cpp"
#include "libs/core/imagepixel.cpp"
namespace Aqsis { CqRenderer* pCurrRenderer=0; }
using namespace Aqsis;

struct Hit { float c[3],o[3],z,cov,alpha,aov; bool matte; };
static Hit rh(bool matte){ Hit h; for(int i=0;i<3;++i) h.c[i]=vp_f32_in("c",0,4); for(int i=0;i<3;++i) h.o[i]=vp_f32_in("o",0,1); h.z=vp_f32_in("z",1,1000); h.cov=vp_f32_in("x",0,1); h.alpha=vp_f32_in("x",0,1); h.aov=vp_f32_in("x",0,1); h.matte=matte; return h; }
static void put(float* d,const Hit& h){ for(int i=0;i<3;++i){ d[Sample_Red+i]=h.c[i]; d[Sample_ORed+i]=h.o[i]; } d[Sample_Depth]=h.z; d[Sample_Coverage]=h.cov; d[Sample_Alpha]=h.alpha; d[9]=h.aov; }
static void add(CqImagePixel& p,int s,const Hit& h){ p.Values(s).push_back(SqImageSample()); SqImageSample& k=p.Values(s).back(); p.allocateHitData(k); put(p.sampleHitData(k),h); k.flags=h.matte?SqImageSample::Flag_Matte:0; }
static void occlude(CqImagePixel& p,int s,const Hit& h){ SqImageSample& k=p.occludingHit(s); k.flags=SqImageSample::Flag_Valid|(h.matte?SqImageSample::Flag_Matte:0); put(p.sampleHitData(k),h); p.SampleData(s).occlZ=h.z; }
static bool eq(float a,float b){ return vp_is_symbolic()? a==b : vp_close(a,b,1e-4); }
// specification: over-compositing back to front of hits h[0] (front) .. h[n-1]
static void over(const Hit* const* h,int n,float* c,float* o){ for(int i=0;i<3;++i) c[i]=o[i]=0; for(int k=n-1;k>=0;--k) for(int i=0;i<3;++i){ float O=h[k]->o[i]; c[i]*=1-O; if(h[k]->matte) o[i]*=1-O; else { c[i]+=h[k]->c[i]; o[i]=1-(1-O)*(1-o[i]); } } }
static void perm(int k,int n,int* p){ bool u[4]={0,0,0,0}; int f=1; for(int i=2;i<n;++i) f*=i; for(int i=0;i<n;++i){ int q=k/f; k%=f; if(i<n-1) f/=(n-1-i); int j=0; for(;;++j) if(!u[j] && q--==0) break; u[j]=true; p[i]=j; } }
static int fact(int n){ return n<2?1:n*fact(n-1); }
// arrival order p of hits sorted by depth; one of them may be the stored opaque (occluding) hit
//@proof combine_color mode=real bounded="one to three hits per sample, in every arrival order, every matte pattern; opaque hit absent or in any position" shards=8
PROOF(combine_color){
	SqImageSample::sampleSize=10; int m=vp_pick("matte",8), n=1+vp_pick("n",3); if(m>>n) return; int p[4]; perm(vp_pick("perm",fact(n)),n,p); int oc=vp_pick("occluding",n+1)-1; if(n==1 && oc==0) return;
	Hit h[3]; for(int i=0;i<n;++i){ h[i]=rh(m>>i&1); if(i) vp_assume(h[i-1].z<h[i].z); }
	CqImagePixel px(2,1); Hit other=rh(false); int s=vp_pick("s",2); bool so=vp_pick("other",2);
	for(int k=0;k<n;++k){ if(p[k]==oc) occlude(px,s,h[p[k]]); else add(px,s,h[p[k]]); if(k==0){ if(so) add(px,1-s,other); else occlude(px,1-s,other); } }
	px.Combine(Filter_Min,CqColor(1,1,1));
	const Hit* q[3]; for(int i=0;i<n;++i) q[i]=&h[i]; float c[3],o[3]; over(q,n,c,o);
	const SqImageSample& r=px.occludingHit(s); vp_assert(r.flags&SqImageSample::Flag_Valid,"the sample is marked hit"); const float* d=px.sampleHitData(r);
	vp_assert(eq(d[Sample_Red],c[0])&eq(d[Sample_Green],c[1])&eq(d[Sample_Blue],c[2]),"colour is the front to back composite of the hits");
	vp_assert(eq(d[Sample_ORed],o[0])&eq(d[Sample_OGreen],o[1])&eq(d[Sample_OBlue],o[2]),"opacity is the front to back composite of the hits");
	vp_assert((d[Sample_Coverage]==h[0].cov)&(d[Sample_Alpha]==h[0].alpha)&(d[9]==h[0].aov),"other outputs come from the nearest hit");
	const SqImageSample& r2=px.occludingHit(1-s); vp_assert(r2.flags&SqImageSample::Flag_Valid,"the other sample is marked hit"); d=px.sampleHitData(r2);
	vp_assert(eq(d[0],other.c[0])&eq(d[1],other.c[1])&eq(d[2],other.c[2])&eq(d[3],other.o[0])&eq(d[4],other.o[1])&eq(d[5],other.o[2])&(d[9]==other.aov),"the other sample of the pixel is not affected"); vp_reach("done");
}
//@proof combine_opaque mode=real
PROOF(combine_opaque){
	SqImageSample::sampleSize=10; CqImagePixel px(1,2); Hit h=rh(vp_pick("matte",2)); int s=vp_pick("s",2); int f=vp_pick("filter",4); occlude(px,s,h); float oz=vp_f32_in("oz",1,1000); if(f==Filter_MidPoint) px.SampleData(s).occlZ=oz; px.Combine((EqDepthFilter)f,CqColor(1,1,1));
	const float* d=px.sampleHitData(px.occludingHit(s)); float k=h.matte?0:1; vp_assert((d[0]==k*h.c[0])&(d[1]==k*h.c[1])&(d[2]==k*h.c[2])&(d[3]==k*h.o[0])&(d[4]==k*h.o[1])&(d[5]==k*h.o[2]),"a single opaque hit is kept, a matte one is a black hole"); vp_assert(d[9]==h.aov,"other outputs kept");
	if(f==Filter_MidPoint) vp_assert(eq(d[Sample_Depth],0.5f*(h.z+oz)),"midpoint depth lies between the two nearest opaque surfaces"); else vp_assert(d[Sample_Depth]==h.z,"depth kept");
	vp_assert(!(px.occludingHit(1-s).flags&SqImageSample::Flag_Valid) && px.Values(1-s).empty(),"an empty sample stays empty");
}
//@proof combine_depth mode=real bounded="two or three hits in every arrival order; any thresholds and opacities"
PROOF(combine_depth){
	SqImageSample::sampleSize=10; int n=2+vp_pick("n",2); int p[4]; perm(vp_pick("perm",fact(n)),n,p); int f=vp_pick("filter",4); int mask=vp_pick("opaque",1<<n);
	Hit h[3]; float th[3]={vp_f32_in("th",0,1),vp_f32_in("th",0,1),vp_f32_in("th",0,1)}; float zs=0,zmin=FLT_MAX,zmax=FLT_MAX,z2=FLT_MAX; int cnt=0;
	for(int i=0;i<n;++i){ h[i]=rh(false); if(i) vp_assume(h[i-1].z<h[i].z); bool in=mask>>i&1; vp_assume(((h[i].o[0]>=th[0])&(h[i].o[1]>=th[1])&(h[i].o[2]>=th[2]))==in); if(in){ zs+=h[i].z; ++cnt; if(cnt==1) zmin=h[i].z; if(cnt==2) z2=h[i].z; zmax=h[i].z; } }
	CqImagePixel px(1,1); for(int k=0;k<n;++k) add(px,0,h[p[k]]); px.Combine((EqDepthFilter)f,CqColor(th[0],th[1],th[2])); const float* d=px.sampleHitData(px.occludingHit(0)); float z=d[Sample_Depth]; vp_reach("d");
	switch(f){
	case Filter_Min: vp_assert(z==zmin,"min depth is that of the nearest opaque hit"); break;
	case Filter_Max: vp_assert(z==zmax,"max depth is that of the furthest opaque hit"); break;
	case Filter_Average: vp_assert(cnt? eq(z,zs/(cnt?cnt:1)) : z==FLT_MAX,"average depth is the mean of the opaque hits"); break;
	default: if(cnt>=2) vp_assert(eq(z,0.5f*(zmin+z2)),"midpoint depth is between the two nearest opaque hits"); } 
}
//@proof pixel_state shards=4
PROOF(pixel_state){
	SqImageSample::sampleSize=10; CqImagePixel px(2,2); int s=vp_pick("s",4); vp_assert(px.numSamples()==4 && px.XSamples()==2 && px.YSamples()==2,"sizes"); for(int i=0;i<4;++i){ vp_assert(px.Values(i).empty() && px.SampleData(i).occlZ==FLT_MAX && !(px.occludingHit(i).flags&SqImageSample::Flag_Valid),"a new pixel is empty"); for(int k=0;k<10;++k) px.sampleHitData(px.occludingHit(i))[k]=10*i+k; }
	for(int i=0;i<4;++i) for(int k=0;k<10;++k) vp_assert(px.sampleHitData(px.occludingHit(i))[k]==10*i+k,"samples have separate storage");
	Hit h; memset(&h,0,sizeof h); h.z=vp_f32("z"); for(int k=0;k<3;++k) add(px,s,h); add(px,3-s,h); vp_assert(px.Values(s).size()==3,"hits are recorded");
	for(int a=0;a<3;++a) for(int k=0;k<10;++k) px.sampleHitData(px.Values(s)[a])[k]=100+10*a+k; for(int a=0;a<3;++a) for(int k=0;k<10;++k) vp_assert(px.sampleHitData(px.Values(s)[a])[k]==100+10*a+k,"hits have separate storage"); vp_assert(px.sampleHitData(px.occludingHit(s))[3]==10*s+3,"hits do not overwrite the opaque hit");
	occlude(px,s,h); if(vp_pick("combine",2)) px.Combine(Filter_Min,CqColor(1,1,1)); px.markHasValidSamples(); px.clear(); vp_assert(!px.hasValidSamples(),"a cleared pixel has no valid samples"); for(int i=0;i<4;++i){ vp_assert(px.Values(i).empty() && px.SampleData(i).occlZ==FLT_MAX && px.occludingHit(i).flags==0,"a cleared pixel is empty"); for(int k=0;k<10;++k) px.sampleHitData(px.occludingHit(i))[k]=10*i+k; }
	for(int i=0;i<4;++i) for(int k=0;k<10;++k) vp_assert(px.sampleHitData(px.occludingHit(i))[k]==10*i+k,"samples have separate storage after clearing");
}
//@proof pool
PROOF(pool){ SqImageSample::sampleSize=10; CqPixelPool pool(2,1); CqImagePixelPtr a=pool.allocate(), b=pool.allocate(); vp_assert(a!=b,"two pixels are distinct"); Hit h; memset(&h,0,sizeof h); add(*a,0,h); CqImagePixelPtr keep=a; CqImagePixel* raw=b.get(); pool.free(a); vp_assert(a.get()!=0,"a pixel still in use is not recycled"); CqImagePixelPtr c=pool.allocate(); vp_assert(c!=a && c!=b,"nor handed out again"); pool.free(b); vp_assert(!b,"a freed pixel is given up"); CqImagePixelPtr d=pool.allocate(); vp_assert(d.get()!=a.get() && d.get()!=c.get() && d->Values(0).empty() && d->SampleData(1).occlZ==FLT_MAX,"a pixel from the pool is clear"); }
