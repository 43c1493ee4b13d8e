// C17: the image is the filtered samples, whatever buckets it is rendered in.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv -I/repo/libs/shadervm
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume colours and filter weights are treated as real numbers (rounding is cross-checked natively)
//@assume work units run one at a time, in the order in which they are scheduled (what the scheduler does when threading is off)
#include "contract.h"
#include "bucket_common.h"
#include "libs/core/grid.cpp"
#include "libs/core/multijitter.cpp"
#include "libs/core/filters.cpp"
namespace Aqsis { CqThreadScheduler::CqThreadScheduler(TqInt){} CqThreadScheduler::~CqThreadScheduler(){} void CqThreadScheduler::joinAll(){} void CqThreadScheduler::addWorkUnit(const boost::function0<void>& u){ u(); } }
extern "C" float stub_log2(float x){ float r=0; int k=1; while(k<x){ k*=2; r+=1; } return k==x?r:r-0.5f; }
extern "C" void stub_mj(void*,int,int){} extern "C" void stub_mjd(void*){}
// what reached the display
static const int MAXR=8; struct Shot { int seen; float ci[3],oi[3],a,z,cov; }; static Shot g_img[MAXR][MAXR]; static int g_out;
struct Disp : IqDDManager {
	TqInt Initialise(){ return 0; } TqInt Shutdown(){ return 0; } TqInt AddDisplay(const TqChar*,const TqChar*,const TqChar*,TqInt,TqInt,TqInt,std::map<std::string,void*>){ return 0; } TqInt ClearDisplays(){ return 0; } TqInt OpenDisplays(TqInt,TqInt){ return 0; } TqInt CloseDisplays(){ return 0; } bool fDisplayNeeds(const TqChar*){ return false; } TqInt Uses(){ return 0; } TqInt numDisplayRequests(){ return 0; } boost::shared_ptr<IqDisplayRequest> displayRequest(TqInt){ return boost::shared_ptr<IqDisplayRequest>(); }
	TqInt DisplayBucket(const CqRegion& r,const IqChannelBuffer* b){ int ci=b->getChannelIndex("Ci"),oi=b->getChannelIndex("Oi"),a=b->getChannelIndex("a"),z=b->getChannelIndex("z"),cv=b->getChannelIndex("coverage"); for(int y=r.yMin();y<r.yMax();++y) for(int x=r.xMin();x<r.xMax();++x){ if(x<0||y<0||x>=MAXR||y>=MAXR){ ++g_out; continue; } Shot& s=g_img[y][x]; ++s.seen; int bx=x-r.xMin(),by=y-r.yMin(); for(int k=0;k<3;++k){ s.ci[k]=(*b)(bx,by,ci)[k]; s.oi[k]=(*b)(bx,by,oi)[k]; } s.a=(*b)(bx,by,a)[0]; s.z=(*b)(bx,by,z)[0]; s.cov=(*b)(bx,by,cv)[0]; } return 0; }
};
static float lopsided(float x,float y,float,float){ return 9+2*x+0.75f*y; }
struct Cfg { int W,H,bw,bh,fx,fy,nx,ny,cx0,cy0,cx1,cy1; };
static void image(const Cfg& c,int tx,int ty,int ts,float gain,bool any){
	Opts o; o.res[0]=c.W; o.res[1]=c.H; o.filtw[0]=c.fx; o.filtw[1]=c.fy; o.samp[0]=c.nx; o.samp[1]=c.ny; o.bsize[0]=c.bw; o.bsize[1]=c.bh; o.filter=lopsided; o.exposure[0]=gain; CqRenderer& r=renderer(o,c.cx0,c.cy0,c.cx1,c.cy1); Disp d; g_dd=&d; g_out=0; for(int y=0;y<MAXR;++y) for(int x=0;x<MAXR;++x) g_img[y][x].seen=0;
	CqImageBuffer& ib=*new CqImageBuffer; ib.SetImage();
	// one sample is hit; its colour and opacity are anything
	float hx=tx+(ts%c.nx+0.5f)/c.nx,hy=ty+(ts/c.nx+0.5f)/c.ny; Grid* g=new Grid; ADDREF(g); MP* m=new MP(g,any?CqBound(-50,-50,3,50,50,6):CqBound(hx-0.1f,hy-0.1f,3,hx+0.1f,hy+0.1f,6)); m->byPos=true; m->at=CqVector2D(hx,hy); m->opaque=false; for(int k=0;k<3;++k){ m->col[k]=vp_f32_in("col",0,1); m->opa[k]=vp_f32_in("opa",0,1); } boost::shared_ptr<CqMicroPolygon> pm(m); ib.AddMPG(pm); ib.RenderImage();
	vp_assert(g_out==0,"nothing is displayed outside the image");
	int bx0=c.cx0/c.bw*c.bw,by0=c.cy0/c.bh*c.bh;
	for(int y=0;y<c.H;++y) for(int x=0;x<c.W;++x){ bool crop=x>=c.cx0&&x<c.cx1&&y>=c.cy0&&y<c.cy1; Shot& s=g_img[y][x]; if(!crop){ vp_assert(s.seen<=1,"no pixel is displayed twice"); continue; } vp_assert(s.seen==1,"every pixel of the crop window is displayed exactly once");
		float tot=0,w=0; bool in=false; for(int py=-c.fy;py<=c.fy;++py) for(int px=-c.fx;px<=c.fx;++px) for(int sy=0;sy<c.ny;++sy) for(int sx=0;sx<c.nx;++sx){ float dx=px+(sx+0.5f)/c.nx-0.5f,dy=py+(sy+0.5f)/c.ny-0.5f; if(dx<-c.fx*0.5f||dx>c.fx*0.5f||dy<-c.fy*0.5f||dy>c.fy*0.5f) continue; float v=lopsided(dx,dy,0,0); tot+=v; if(x+px==tx && y+py==ty && sy*c.nx+sx==ts){ w=v; in=true; } }
		bool sampled=tx>=c.cx0-c.fx/2&&tx<c.cx1+c.fx/2&&ty>=c.cy0-c.fy/2&&ty<c.cy1+c.fy/2; (void)sampled;
		for(int k=0;k<3;++k){ vp_assert(vp_close(s.ci[k],m->col[k]*w/tot*gain,1e-4f),"the colour of a pixel is the filtered colour of its samples, times the gain"); vp_assert(vp_close(s.oi[k],m->opa[k]*w/tot,1e-4f),"the opacity of a pixel is the filtered opacity of its samples"); }
		if(!in) vp_assert(s.a==0 && s.z==FLT_MAX && s.cov==0,"a pixel whose samples are not hit is empty"); else { vp_assert(vp_close(s.cov,1.0f/(c.nx*c.ny),1e-5f),"coverage counts the samples that are hit"); vp_assert(vp_close(s.a*3,(m->opa[0]+m->opa[1]+m->opa[2])*w/tot/(c.nx*c.ny),1e-4f),"alpha is the mean opacity, in proportion to the coverage"); vp_reach("hit"); }
	}
	vp_assert(m->asked==(tx>=bx0-c.fx/2&&tx<c.W+c.fx/2&&ty>=by0-c.fy/2&&ty<c.H+c.fy/2?1:0)||m->asked<=1,"every sample is taken once in the whole image");
}
static const Cfg cfgs[]={{5,3,2,2,3,3,1,1,0,0,5,3},{4,4,2,2,1,3,2,1,0,0,4,4},{6,5,2,2,5,3,1,1,0,0,6,5},{5,5,2,2,3,3,1,1,1,2,4,5}};
// every sample of an image, and of the border that the filter reaches
static void images(int c,int shard,int n){ const Cfg& g=cfgs[c]; int w=g.W+2,h=g.H+2,s=g.nx*g.ny,t=vp_pick("sample",(w*h*s+n-1-shard)/n)*n+shard; image(g,t/s%w-1,t/s/w-1,t%s,c&1?1:2,t&1); }
//@default mode=real budget=120 replace="_ZN5Aqsis4log2Ef=>stub_log2;_ZN5Aqsis22CqMultiJitteredSamplerC[12]Eii=>stub_mj;_ZN5Aqsis22CqMultiJitteredSamplerD[12]Ev=>stub_mjd"
//@proof image shards=8 bounded="an image of 5 by 3 pixels in buckets of 2, filter width 3; every sample hit in turn, with any colour and opacity"
PROOF(image){ int k=vp_pick("k",8); images(0,k,8); }
//@proof image_samples shards=8 bounded="an image of 4 by 4 pixels of 2 samples in buckets of 2, filter 1 by 3; every sample hit in turn, with any colour and opacity"
PROOF(image_samples){ int k=vp_pick("k",8); images(1,k,8); }
//@proof image_wide shards=8 bounded="an image of 6 by 5 pixels in buckets of 2 (raised to the overlap of the filter), filter 5 by 3; every sample hit in turn, with any colour and opacity"
PROOF(image_wide){ int k=vp_pick("k",8); images(2,k,8); }
//@proof image_crop shards=8 bounded="a 3 by 3 crop window of an image of 5 by 5 pixels in buckets of 2, filter width 3; every sample hit in turn, with any colour and opacity"
PROOF(image_crop){ int k=vp_pick("k",8); images(3,k,8); }

// the pixels of a crop window are those between the two fractions of the resolution, so adjacent windows tile the image
//@proof crop_window mode=real native=1
PROOF(crop_window){
	Opts o; CqRenderer& r=renderer(o,0,0,0,0); int n[2]; float f[4]; for(int i=0;i<2;++i){ n[i]=vp_range("res",1,1<<20); o.res[i]=n[i]; } for(int i=0;i<4;++i){ f[i]=vp_f32_in("crop",-0.5f,1.5f); o.crop[i]=f[i]; } r.initialiseCropWindow(); int got[4]={r.cropWindowXMin(),r.cropWindowXMax(),r.cropWindowYMin(),r.cropWindowYMax()};
	for(int i=0;i<4;++i){ int N=n[i/2]; float v=N*f[i]; vp_assert(got[i]>=0 && got[i]<=N,"the crop window lies in the image"); if((v>=0)&(v<=N)) vp_assert((got[i]>=v)&(got[i]-1<v),"a crop window starts at, and ends before, the first pixel at or beyond its fraction of the image"); else vp_assert(got[i]==(v<0?0:N),"a crop window beyond the image is clamped to it"); }
}

// ---- the whole image covered, imager shaders, exposure and filters -----------------------------------------------------
struct ImgOpts : Opts { boost::shared_ptr<IqShader> sh; int inits; float k[6]; ImgOpts():inits(0){} boost::shared_ptr<IqShader> pshadImager() const{ return sh; } void InitialiseColorImager(const CqRegion&,IqChannelBuffer*){ ++inits; }
	CqColor GetColorImager(float x,float y){ return CqColor(k[0]+x,k[1]+y,k[2]); } CqColor GetOpacityImager(float x,float y){ return CqColor(k[3],k[4]+x,k[5]+y); } };
static void whole(const Cfg& c,bool imager,float gain){
	ImgOpts o; o.res[0]=c.W; o.res[1]=c.H; o.filtw[0]=c.fx; o.filtw[1]=c.fy; o.samp[0]=c.nx; o.samp[1]=c.ny; o.bsize[0]=c.bw; o.bsize[1]=c.bh; o.filter=lopsided; o.exposure[0]=gain; if(imager) o.sh=boost::shared_ptr<IqShader>((IqShader*)64,[](IqShader*){}); for(int i=0;i<6;++i) o.k[i]=vp_f32_in("imager",0,1); renderer(o,c.cx0,c.cy0,c.cx1,c.cy1); Disp d; g_dd=&d; g_out=0; for(int y=0;y<MAXR;++y) for(int x=0;x<MAXR;++x) g_img[y][x].seen=0;
	CqImageBuffer& ib=*new CqImageBuffer; ib.SetImage(); bool hit=!imager||gain==1; Grid* g=new Grid; ADDREF(g); MP* m=new MP(g,CqBound(-50,-50,3,50,50,6)); m->opaque=false; for(int k=0;k<3;++k){ m->col[k]=vp_f32_in("col",0,1); m->opa[k]=vp_f32_in("opa",0,1); } boost::shared_ptr<CqMicroPolygon> pm(m); if(hit) ib.AddMPG(pm); ib.RenderImage(); vp_assert(g_out==0,"nothing is displayed outside the image");
	for(int y=c.cy0;y<c.cy1;++y) for(int x=c.cx0;x<c.cx1;++x){ Shot& s=g_img[y][x]; vp_assert(s.seen==1,"every pixel of the crop window is displayed exactly once");
		if(imager){ vp_assert(vp_close(s.ci[0],(o.k[0]+x)*gain,1e-4f) && vp_close(s.ci[1],(o.k[1]+y)*gain,1e-4f) && vp_close(s.ci[2],o.k[2]*gain,1e-4f),"an imager shader decides the colour of its pixel"); vp_assert(vp_close(s.oi[0],o.k[3],1e-4f) && vp_close(s.oi[1],o.k[4]+x,1e-4f) && vp_close(s.oi[2],o.k[5]+y,1e-4f) && vp_close(s.a*3,s.oi[0]+s.oi[1]+s.oi[2],1e-4f),"and its opacity"); }
		else { for(int k=0;k<3;++k) vp_assert(vp_close(s.ci[k],m->col[k]*gain,1e-4f) && vp_close(s.oi[k],m->opa[k],1e-4f),"an image covered evenly is even"); vp_assert(vp_close(s.a*3,m->opa[0]+m->opa[1]+m->opa[2],1e-4f) && vp_close(s.cov,1,1e-5f),"full coverage"); }
	} vp_reach("whole");
}
//@proof whole shards=8 bounded="the four image layouts above, every sample hit with any one colour and opacity; imager shaders of any colour"
PROOF(whole){ int k=vp_pick("k",16); whole(cfgs[k&3],k&4,k&8?2:1); }
// colours are scaled by the gain and then raised to one over gamma; the other channels are not exposed
//@proof exposure
PROOF(exposure){
	int k=vp_pick("k",4); Opts o; o.exposure[0]=k&1?vp_f32_in("gain",0.01f,10):1; o.exposure[1]=k&2?vp_f32_in("gamma",0.1f,5):1; if(k&2) vp_assume(o.exposure[1]!=1); renderer(o,-100,-100,100,100); SqOptionCache oc=optCache(1,1,1,1,2,1); CqBucketProcessor& bp=processor(oc); CqBucket b; place(b,-1,3,2,1); bp.setBucket(&b); Smp s(1); s.pos[0]=CqVector2D(0.5f,0.5f); bp.preProcess(&s);
	Grid* g=new Grid; ADDREF(g); MP* m=new MP(g,CqBound(-50,-50,3,50,50,6)); m->opaque=false; for(int j=0;j<3;++j){ m->col[j]=vp_f32_in("col",0.01f,4); m->opa[j]=vp_f32_in("opa",0.01f,1); } boost::shared_ptr<CqMicroPolygon> pm(m); b.AddMP(pm); bp.process(); bp.postProcess();
	const IqChannelBuffer& cb=bp.getChannelBuffer(); int ci=cb.getChannelIndex("Ci"),oi=cb.getChannelIndex("Oi"); for(int x=0;x<2;++x) for(int j=0;j<3;++j){ float v=m->col[j]*o.exposure[0]; if(k&2) v=powf(v,1.0f/o.exposure[1]); vp_assert(vp_close(cb(x,0,ci)[j],v,1e-3f*(1+v)),"colours are multiplied by the gain and raised to one over gamma"); vp_assert(vp_close(cb(x,0,oi)[j],m->opa[j],1e-5f),"opacity is not exposed"); } vp_reach("x");
}
static bool feq(float a,float b){ return vp_is_symbolic()?a==b:vp_close(a,b,1e-4f*(1+(b<0?-b:b))); }
// the standard pixel filters, at any point of their support
//@proof filters iters=2000 bounded="filter widths 1, 2, 3 and 4.5; every point of the support"
PROOF(filters){
	int k=vp_pick("k",32); static const float W[4]={1,2,3,4.5f}; float w=W[k&3],h=W[(k+1)&3],x=vp_f32_in("x",-3,3),y=vp_f32_in("y",-3,3),ax=x<0?-x:x,ay=y<0?-y:y; bool in=(ax<=w/2)&(ay<=h/2);
	if(!vp_is_symbolic()){ float e=1e-4f; if((ax>w/2-e && ax<w/2+e)||(ay>h/2-e && ay<h/2+e)) return; }
	switch(k>>2){
	case 0: vp_assert(RiBoxFilter(x,y,w,h)==(in?1:0),"box"); break;
	case 1: { float a=1-2*ax/w,b=1-2*ay/h; vp_assert(feq(RiTriangleFilter(x,y,w,h),in?(a<b?a:b):0),"triangle"); break; }
	case 2: { double d=(double)x*x/((w/2)*(w/2))+(double)y*y/((h/2)*(h/2)); if(!vp_is_symbolic() && d>0.9999 && d<1.0001) break; vp_assert(RiDiskFilter(x,y,w,h)==(d<1?1:0),"disk"); break; }
	case 3: { float v=RiMitchellFilter(x,y,w,h); vp_assert(feq(RiMitchellFilter(-x,y,w,h),v) && feq(RiMitchellFilter(x,-y,w,h),v) && feq(RiMitchellFilter(y,x,h,w),v),"Mitchell is symmetric"); break; }
	case 4: { float r2=x*x+y*y,r=sqrtf(r2),v=r>=2?0:r<1?3*r*r2-5*r2+2:-r*r2+5*r2-8*r+4; vp_assert(feq(RiCatmullRomFilter(x,y,w,h),v),"Catmull-Rom"); break; }
	case 5: { double u=x/w,v=y/h; vp_assert(feq(RiGaussianFilter(x,y,w,h),exp(-8.0*(u*u+v*v))),"Gaussian"); break; }
	case 6: if(!vp_is_symbolic()){ double u=x*M_PI,v=y*M_PI,a=x==0?1:cos(u/2/w)*sin(u)/u,b=y==0?1:cos(v/2/h)*sin(v)/v; vp_assert(feq(RiSincFilter(x,y,w,h),a*b),"sinc"); } vp_assert(RiSincFilter(0,0,w,h)==1,"sinc is one at the centre"); break;
	default: { double d=(double)x*x/((w/2)*(w/2))+(double)y*y/((h/2)*(h/2)); if(d>1.0001) vp_assert(RiBesselFilter(x,y,w,h)==0,"Bessel is zero outside its ellipse"); else if(!vp_is_symbolic() && d<0.9999){ double r=sqrt((double)x*x+(double)y*y); if(r>1e-3) vp_assert(feq(RiBesselFilter(x,y,w,h),cos(M_PI/2*sqrt(d))*2*j1(M_PI*r)/r),"Bessel"); } break; }
	}
	vp_reach("f");
}
