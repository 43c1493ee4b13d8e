// C16: every sample position is placed, and every micropolygon is tested at, every sample it can cover.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv -I/repo/libs/shadervm
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume screen coordinates, times and depths are treated as real numbers (rounding is cross-checked natively)
//@assume random numbers are any numbers in the range the generator documents (assumed, not proved)
#include "contract.h"
#include "bucket_common.h"
#include "libs/core/grid.cpp"
#include "libs/core/multijitter.cpp"

// ---- samplers ----------------------------------------------------------------------------------------------------
// the draws below g_free are any, the others are fixed (positions and shuffled indices are explored separately)
static int g_draw,g_lo,g_hi,g_first; extern "C" unsigned stub_rint(CqRandom*,unsigned range){ int d=g_draw++; if(d<g_lo||d>=g_hi) return (d*7+1)%range; if(d==g_lo){ vp_assume(g_first<(int)range); return g_first; } return vp_pick("rint",(int)range); }
extern "C" float stub_rfloat(CqRandom*){ float f=vp_f32_in("rf",0,1); vp_assume(f<1); return f; }
extern "C" float stub_rfloatr(CqRandom*,float r){ float f=vp_f32_in("rf",0,1); vp_assume(f<1); return f*r; }
static bool within(float v,float lo,float hi){ float e=vp_is_symbolic()?0:1e-5f; return (v>=lo-e)&(v<hi+e); }
// each of the nx by ny subpixels has one sample, each of the nx*ny columns and rows has one sample, times are one in each interval
static void pattern(const CqVector2D* p,const float* t,const int* sh,int nx,int ny,int part){
	int n=nx*ny; if(part!=1) for(int i=0;i<n;++i){ int x=i%nx,y=i/nx;
		vp_assert(within(p[i].x(),(float)x/nx,(float)(x+1)/nx)&within(p[i].y(),(float)y/ny,(float)(y+1)/ny),"each sample lies in its own subpixel");
		vp_assert(within(t[i],(float)i/n,(float)(i+1)/n),"sample times are one in each interval of the shutter, in order");
		if(part==0 && vp_is_symbolic()) for(int j=0;j<i;++j){ bool d=true; for(int c=0;c<n;++c) d=d&!(within(p[i].x(),(float)c/n,(float)(c+1)/n)&within(p[j].x(),(float)c/n,(float)(c+1)/n))&!(within(p[i].y(),(float)c/n,(float)(c+1)/n)&within(p[j].y(),(float)c/n,(float)(c+1)/n)); vp_assert(d,"no two samples share one of the n columns or rows of the pixel"); } }
	int mask=0; if(part!=0) for(int i=0;i<n;++i){ vp_assert(sh[i]>=0 && sh[i]<n && !(mask>>sh[i]&1),"the shuffled indices are a permutation"); mask|=1<<sh[i]; }
}
static const int nxy[][2]={{2,2},{1,1},{2,1},{1,2},{3,2},{3,1},{1,3},{1,4}};
#ifdef VP_PRIV
static void jitter(int k,int part){
	int nx=nxy[k][0],ny=nxy[k][1],np=ny*(nx-1)+nx*(ny-1); g_draw=0; g_lo=part?np:0; g_hi=part?np+3:np; char mem[sizeof(CqMultiJitteredSampler)] __attribute__((aligned(16))); CqMultiJitteredSampler& s=*(CqMultiJitteredSampler*)mem; s.m_pixelXSamples=nx; s.m_pixelYSamples=ny;
	new(&s.m_2dSamples) std::vector<CqVector2D>(2*nx*ny); new(&s.m_1dSamples) std::vector<float>(2*nx*ny); new(&s.m_shuffledIndices) std::vector<int>(2*nx*ny);
	s.setupJitterPattern(nx*ny); pattern(&s.m_2dSamples[nx*ny],&s.m_1dSamples[nx*ny],&s.m_shuffledIndices[nx*ny],nx,ny,part);
	for(int i=0;i<nx*ny;++i) vp_assert(s.m_1dSamples[i]==0 && s.m_shuffledIndices[i]==0 && s.m_2dSamples[i].x()==0,"other patterns are left alone");
}
//@proof jitter mode=real replace="_ZN5Aqsis8CqRandom9RandomIntEj=>stub_rint;_ZN5Aqsis8CqRandom11RandomFloatEv=>stub_rfloat;_ZN5Aqsis8CqRandom11RandomFloatEf=>stub_rfloatr" bounded="pixels of up to 2 by 2 samples, every outcome of the random generator" shards=8
PROOF(jitter){ int k=vp_pick("k",64),part; g_first=k%4; k/=4; part=k>>3; if((k&7)!=4) jitter(k&7,part); }
//@proof jitter_more tier=thorough mode=real replace="_ZN5Aqsis8CqRandom9RandomIntEj=>stub_rint;_ZN5Aqsis8CqRandom11RandomFloatEv=>stub_rfloat;_ZN5Aqsis8CqRandom11RandomFloatEf=>stub_rfloatr" bounded="pixels of up to 3 by 2 samples, every outcome of the random generator" budget=1500 shards=8
PROOF(jitter_more){ int k=vp_pick("k",12); g_first=k%6; jitter(4,k/6); }
#endif
//@proof sampler mode=real native=0 bounded="pixels of up to 3 by 2 samples"
PROOF(sampler){
	int k=vp_pick("k",8),nx=nxy[k][0],ny=nxy[k][1]; 
	CqGridSampler g(nx,ny); const CqVector2D* p=g.get2DSamples(); const float* t=g.get1DSamples(); pattern(p,t,g.getShuffledIndices(),nx,ny,2);
	for(int i=0;i<nx*ny;++i) vp_assert(vp_close(p[i].x(),(i%nx+0.5f)/nx,1e-5f) && vp_close(p[i].y(),(i/nx+0.5f)/ny,1e-5f),"grid samples are the subpixel centres");
}

// any value between the same two integers is as good (the depth of the occlusion tree is rounded up)
extern "C" float stub_log2(float x){ float r=0; int k=1; while(k<x){ k*=2; r+=1; } return k==x?r:r-0.5f; }
// ---- static micropolygons -----------------------------------------------------------------------------------------
// x varies over the whole bucket with y fixed, or the other way round; the sample of interest is any
static void still(bool yy,int tx,int ti,int x0,int f,bool crop,bool hit){
	Opts o; int W=f==1?2:1,nx=yy?1:2,ny=yy?2:1,pad=f/2; renderer(o,yy?-100:(crop?x0+1:-100),yy?(crop?x0+1:-100):-100,100,100); SqOptionCache oc=optCache(f,f,nx,ny,yy?1:W,yy?W:1); CqBucketProcessor& bp=processor(oc); CqBucket b; place(b,yy?0:x0,yy?x0:0,yy?1:W,yy?W:1);
	Smp s(2); for(int i=0;i<2;++i){ float v=vp_f32_in("pos",0.5f*i,0.5f*i+0.5f); vp_assume(v<0.5f*i+0.5f); s.pos[i]=yy?CqVector2D(0.5f,v):CqVector2D(v,0.5f); }
	bp.setBucket(&b); bp.preProcess(&s); CqRegion r=bp.SampleRegion(); int lo=yy?r.yMin():r.xMin(),hi=yy?r.yMax():r.xMax(); vp_assert(lo==x0-pad+(crop?1:0) && hi==x0+W+pad,"the sampled region is the bucket with the filter border, cropped");
	if(tx<lo||tx>=hi) return; CqImagePixel& px=yy?pixelAt(bp,0,tx):pixelAt(bp,tx,0); SqSampleData& sd=px.SampleData(ti); float v=yy?sd.position.y():sd.position.x(); vp_assert(v==tx+(yy?s.pos[ti].y():s.pos[ti].x()),"samples are placed in their pixel");
	for(int x=lo;x<hi;++x) for(int y=yy?-pad:r.yMin();y<(yy?1+pad:r.yMax());++y) for(int i=0;i<2;++i){ SqSampleData& q=yy?pixelAt(bp,y,x).SampleData(i):pixelAt(bp,x,y).SampleData(i); if(&q!=&sd) q.position=CqVector2D(1000,1000); } // the other samples are out of the way
	float l=vp_f32_in("l",lo-0.5f,hi+0.5f),h=vp_f32_in("h",lo-0.5f,hi+0.5f); vp_assume(l<=h); Grid* g=new Grid; ADDREF(g); CqBound B(yy?-50:l,yy?l:-50,3,yy?50:h,yy?h:50,6); MP* m=new MP(g,B); m->only=&sd; m->hit=hit; boost::shared_ptr<CqMicroPolygon> pm(m); b.AddMP(pm); bp.process();
	if((v>=l)&(v<h)){ vp_assert(m->asked==1,"a sample inside the bound of a micropolygon is tested exactly once"); vp_reach("inside"); } if((v<l)|(v>h)) vp_assert(m->asked==0,"a sample outside the bound is not tested");
	bool st=(m->asked==1)&m->hit; SqImageSample& oh=px.occludingHit(ti); vp_assert(!!(oh.flags&SqImageSample::Flag_Valid)==st,"exactly the hits are stored"); if(st) vp_assert(px.sampleHitData(oh)[Sample_Depth]==5 && sd.occlZ==5 && px.hasValidSamples(),"a hit is stored with its depth");
}
//@proof static splitint=12 budget=100 mode=real replace="_ZN5Aqsis4log2Ef=>stub_log2" nomerge=1 shards=8 bounded="buckets of 2 by 1, 1 by 2 and 1 by 1 pixels, two samples a pixel, filter widths 1 and 3, with and without crop; every bound and sample position"
PROOF(static){ int k=vp_pick("k",24); bool yy=k&1; int c=k>>1; if(c<4) still(yy,-1+(c&1),c>>1,-1,1,false,true); else if(c<6) still(yy,0,c&1,-1,1,true,c&1); else still(yy,-2+(c-6)/2,c&1,-1,3,false,c!=7); }

// ---- moving and defocused micropolygons ----------------------------------------------------------------------------
static void apart(CqBucketProcessor& bp,int lo,int hi,SqSampleData& sd){ for(int x=lo;x<hi;++x) for(int i=0;i<2;++i){ SqSampleData& q=pixelAt(bp,x,0).SampleData(i); if(&q!=&sd) q.position=CqVector2D(1000,1000); } }
// seg of the n equal parts of the shutter interval has a bound of any width, the others cover everything
static void moving(int n,int seg,int tx,int ti,float open,float close,bool sparse){
	Opts o; o.shutter[0]=open; o.shutter[1]=close; renderer(o,-100,-100,100,100); SqOptionCache oc=optCache(1,1,2,1,2,1); oc.shutterOpen=open; oc.shutterClose=close; CqBucketProcessor& bp=processor(oc); CqBucket b; place(b,-1,0,2,1);
	Smp s(2); for(int i=0;i<2;++i){ float v=vp_f32_in("pos",0,1); vp_assume(v<1); s.pos[i]=CqVector2D(v,0.5f); s.t[i]=0.5f*i+0.25f; } float u=vp_f32_in("time",0.5f*ti,0.5f*ti+0.5f); vp_assume(u<0.5f*ti+0.5f); s.t[ti]=u;
	bp.setBucket(&b); bp.preProcess(&s); SqSampleData& sd=pixelAt(bp,tx,0).SampleData(ti); apart(bp,-1,1,sd); float v=sd.position.x(),d=(close-open)/n,t=sd.time; vp_assert(vp_close(t,open+u*(close-open),1e-5f),"sample times cover the shutter interval");
	float l=vp_f32_in("l",-1.5f,1.5f),h=vp_f32_in("h",-1.5f,1.5f); vp_assume(l<=h); Grid* g=new Grid; ADDREF(g); MP* m=new MP(g,CqBound(-50,-50,3,50,50,6)); m->only=&sd; m->moving=true; for(int i=0;i<n;++i){ m->sub.push_back(i==seg?CqBound(l,-50,3,h,50,6):sparse?CqBound(70,-50,3,80,50,6):CqBound(-50,-50,3,50,50,6)); m->times.push_back(open+i*d); }
	boost::shared_ptr<CqMicroPolygon> pm(m); b.AddMP(pm); bp.process(); 
	// each part of the shutter interval includes its start, only the last its end
	float e=vp_is_symbolic()?0:1e-4f,a=open+seg*d,z=open+(seg+1)*d; bool in=(t>=a+e)&((t<z-e)|((seg==n-1)&(t<=z))),edge=false; if(open==close) in=true; if(e!=0) for(int i=0;i<=n;++i) edge=edge|((t>=open+i*d-e)&(t<=open+i*d+e));
	if(in&(v>=l)&(v<h)){ vp_assert(m->asked==1,"a sample is tested once against the bound of its time"); vp_assert(m->askedTime==t,"at its own time"); vp_reach("inside"); } if(in&((v<l)|(v>h))) vp_assert(m->asked==0,"and not elsewhere");
	if(!in&!edge) vp_assert(m->asked==(sparse?0:1),"a sample is not tested against bounds of other times");
}
//@proof moving budget=120 splitint=12 mode=real nomerge=1 shards=8 replace="_ZN5Aqsis4log2Ef=>stub_log2" bounded="a bucket of 2 by 1 pixels of 2 samples, up to 3 motion segments; every bound, sample position and time"
PROOF(moving){ int k=vp_pick("k",16),c=k>>1; bool sp=k&1; if(c<2) moving(1,0,-(c&1),sp,0,1,sp); else if(c<4) moving(2,c&1,0,sp,1,3,!sp); else if(c<7) moving(3,c-4,-1,(c^k)&1,0,1,sp); else moving(1,0,0,sp,1,1,sp); }

// a lens of two cells, both ends of the bound in the same focus
static void defocus(int tx,int ti,int swap){
	Opts o; CqRenderer& r=renderer(o,-100,-100,100,100); SqOptionCache oc=optCache(1,1,2,1,2,1); CqBucketProcessor& bp=processor(oc); CqBucket b; place(b,-1,0,2,1); r.m_UsingDepthOfField=true; r.m_DofMultiplier=4; r.m_OneOverFocalDistance=0.25f; r.m_DepthOfFieldScale=CqVector2D(1,1);
	Smp s(2); for(int i=0;i<2;++i){ float v=vp_f32_in("pos",0,1); vp_assume(v<1); s.pos[i]=CqVector2D(v,0.5f); s.dof[i]=CqVector2D(0.5f*i+0.125f,0.5f); s.sh[i]=swap?1-i:i; }
	bp.setBucket(&b); bp.preProcess(&s); SqSampleData& sd=pixelAt(bp,tx,0).SampleData(ti); apart(bp,-1,1,sd); float v=sd.position.x(),off=sd.dofOffset.x(),coc=1; int cell=swap?1-ti:ti; vp_assert(vp_close(off,-1+2*(0.5f*cell+0.125f),1e-5f),"each sample has its own part of the lens");
	float l=vp_f32_in("l",-2.5f,2.5f),h=vp_f32_in("h",-2.5f,2.5f); vp_assume(l<=h); Grid* g=new Grid; ADDREF(g); MP* m=new MP(g,CqBound(l,-50,2,h,50,2)); m->only=&sd; boost::shared_ptr<CqMicroPolygon> pm(m); b.AddMP(pm); bp.process();
	if((v>=l-off*coc)&(v<h-off*coc)){ vp_assert(m->asked==1,"a sample is tested once if the defocused bound covers it"); vp_reach("inside"); } vp_assert(m->asked<=1,"never twice");
}
//@proof defocus budget=120 splitint=12 mode=real nomerge=1 shards=8 replace="_ZN5Aqsis4log2Ef=>stub_log2" bounded="a bucket of 2 by 1 pixels of 2 samples, a lens of two cells; every bound in one focal plane and every sample position"
PROOF(defocus){ int k=vp_pick("k",8); defocus(-(k&1),k>>1&1,k>>2); }

// ---- the bounds of a moving micropolygon ---------------------------------------------------------------------------
// the vertex v (1..3) is anywhere in all keys but the first; how far the vertex 0 moves decides the number of bounds
//@proof motion_bounds mode=real shards=8 bounded="two and three keys, one to three bounds, shutters within, overlapping and beyond the keys, and instantaneous; every position of one vertex at the later keys and every time"
PROOF(motion_bounds){
	static const struct{ int n; float t[3]; float open,close; } cs[]={{2,{0,1},0,1},{2,{0,1},0.25f,0.75f},{3,{0,1,4},0,4},{3,{0,1,4},0.5f,2},{2,{0,1},-1,0.5f},{2,{0,1},0.5f,2},{3,{0,1,2},0,3},{2,{0,1},0.5f,0.5f}};
	int k0=vp_pick("k0",24),v=1+k0%3; auto c=cs[k0/3]; int ax=vp_pick("axis",3),far=(k0+k0/3+ax)%3,ranges=far==2&&(k0&1)?2:7; Opts o; o.shutter[0]=c.open; o.shutter[1]=c.close; renderer(o,-100,-100,100,100);
	Grid g; CqMicroPolygonMotion* m=new CqMicroPolygonMotion(&g,0); static const float sq[4][2]={{0,0},{3,0},{0,4},{3,4}}; CqVector3D q[3][4];
	for(int k=0;k<c.n;++k){ for(int i=0;i<4;++i){ q[k][i]=CqVector3D(sq[i][0]+(k==c.n-1?5*(far+1):k),sq[i][1],3); if(k==0) q[k][i]=CqVector3D(sq[i][0],sq[i][1],3); else if(i==v){ q[k][i]=CqVector3D(sq[i][0]+k,sq[i][1]-k,4); q[k][i][ax]=vp_f32_in("x",-20,20); } } m->AppendKey(q[k][0],q[k][1],q[k][2],q[k][3],c.t[k]); }
	int n=m->cSubBounds(ranges); vp_assert(n>=1 && n<=ranges,"no more bounds than times"); if(c.open==c.close) vp_assert(n==1,"one bound when the shutter is instantaneous");
	// any time before, between or after the keys
	int seg=vp_pick("seg",c.n+1); float t,P; if(seg==0){ t=vp_f32_in("t",-2,c.t[0]); P=q[0][v][ax]; } else if(seg==c.n){ t=vp_f32_in("t",c.t[c.n-1],5); P=q[c.n-1][v][ax]; } else { float f=vp_f32_in("f",0,1); t=c.t[seg-1]+f*(c.t[seg]-c.t[seg-1]); P=q[seg-1][v][ax]+f*(q[seg][v][ax]-q[seg-1][v][ax]); } vp_assume((t>=c.open)&(t<=c.close));
	float e=vp_is_symbolic()?0:1e-4f; CqBound all=m->GetBound(); bool found=false; float prev=c.open; for(int i=0;i<n;++i){ float t0,t1=c.close; CqBound B=m->SubBound(i,t0),N; if(i+1<n) N=m->SubBound(i+1,t1); vp_assert(i==0?vp_close(t0,c.open,1e-5f):t0>prev||c.open==c.close,"the bounds divide the shutter interval in order"); prev=t0; found=found|((t>=t0-e)&(t<=t1+e)); vp_assert(!((t>=t0+e)&(t<=t1-e))|((P>=B.vecMin()[ax]-e)&(P<=B.vecMax()[ax]+e)),"at every time of its interval the micropolygon lies in the bound of that interval"); }
	vp_assert(found,"every time of the shutter has a bound"); vp_assert((P>=all.vecMin()[ax]-e)&(P<=all.vecMax()[ax]+e),"and in the bound of the whole motion"); vp_reach("end");
}
