// C18: every display receives every pixel once, in its own format, quantised as asked.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv -I/repo/libs/shadervm
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume pixel values are treated as real numbers (rounding is cross-checked natively)
//@assume buckets are displayed from left to right and top to bottom, as the image buffer does
#include "contract.h"
#include "bucket_common.h"
#undef N
#undef M
#include "libs/core/channelbuffer.h"
#include "libs/core/ddmanager/ddmanager.cpp"
#include "libs/riutil/primvartoken.cpp"
#include "libs/riutil/tokendictionary.cpp"
namespace Aqsis { std::ostream& log(){ static std::ostream o(0); return o; }
std::ostream& debug(std::ostream& o){ return o; } std::ostream& info(std::ostream& o){ return o; } std::ostream& warning(std::ostream& o){ return o; } std::ostream& error(std::ostream& o){ return o; } std::ostream& critical(std::ostream& o){ return o; } }
extern "C" float stub_rfloat(void*){ float v=vp_f32_in("dither",0,1); vp_assume(v<1); return v; }
extern "C" int stub_hostname(char* p,size_t){ strcpy(p,"host"); return 0; }
extern "C" int stub_sprintf(char* p,const char*,...){ strcpy(p,"soft"); return 4; }
// options of the display and of its quantisation
static CqString* g_drv; static CqString* g_none; static const char* g_missing=""; struct DOpts : Opts { float q[4],one; bool hasQ; std::string qname; DOpts():one(1),hasQ(false){ g_drv=new CqString("debugdd"); g_none=new CqString("none"); g_missing=""; }
	const float* GetFloatOption(const char* n,const char* p) const{ if(n[0]=='Q') return hasQ && qname==p?q:0; return p[0]=='P'?&one:Opts::GetFloatOption(n,p); }
	const CqString* GetStringOption(const char* n,const char* p) const{ return n[0]!='d'?0:g_missing[0] && !strcmp(p,g_missing)?g_none:g_drv; } };
struct RendMat { virtual bool mat(const char*,const char*,const IqTransform*,const IqTransform*,TqFloat,CqMatrix&); virtual TqFloat time(){ return 0; } }; bool RendMat::mat(const char*,const char*,const IqTransform*,const IqTransform*,TqFloat,CqMatrix&){ return true; }
extern "C" void* _ZTV7RendMat[];
// the display: it asks for its channels in its own order, and keeps every byte
static const UserParameter* g_p; static int g_np; static int g_order[8],g_nfmt,g_flags,g_opened,g_w,g_h,g_bad,g_esz,g_origin[2]; static unsigned g_fmtType[8]; static std::string* g_fmtName; static const int MAXW=8; struct Px { int seen; unsigned char b[20]; }; static Px g_px[MAXW][MAXW];
PtDspyError DebugDspyImageOpen(PtDspyImageHandle* h,const char*,const char*,int w,int hh,int np,const UserParameter* p,int n,PtDspyDevFormat* f,PtFlagStuff* fl){ *h=(void*)8; ++g_opened; g_p=p; g_np=np; g_w=w; g_h=hh; PtDspyDevFormat t[8]; g_nfmt=n; for(int i=0;i<n;++i) t[i]=f[i]; for(int i=0;i<n;++i){ f[i]=t[g_order[i]<n?g_order[i]:i]; g_fmtType[i]=f[i].type; g_fmtName[i]=f[i].name; } fl->flags|=g_flags; for(int i=0;i<np;++i) if(!strcmp(p[i].name,"origin")){ g_origin[0]=((int*)p[i].value)[0]; g_origin[1]=((int*)p[i].value)[1]; } return PkDspyErrorNone; }
PtDspyError DebugDspyImageQuery(PtDspyImageHandle,PtDspyQueryType,size_t,void*){ return PkDspyErrorNone; }
PtDspyError DebugDspyImageData(PtDspyImageHandle,int x0,int x1,int y0,int y1,int es,const unsigned char* d){ g_esz=es; if((g_flags&1)&&(x0!=g_origin[0]||x1!=g_origin[0]+g_w||y1!=y0+1)) ++g_bad; for(int y=y0;y<y1;++y) for(int x=x0;x<x1;++x,d+=es){ if(x<0||y<0||x>=MAXW||y>=MAXW||es>20){ ++g_bad; continue; } ++g_px[y][x].seen; memcpy(g_px[y][x].b,d,es); } return PkDspyErrorNone; }
PtDspyError DebugDspyImageClose(PtDspyImageHandle){ --g_opened; return PkDspyErrorNone; }
PtDspyError DebugDspyDelayImageClose(PtDspyImageHandle){ --g_opened; return PkDspyErrorNone; }
struct Case { const char* mode; int id,size; const char* names; };
static const Case cases[]={{"rgba",DMode_RGB|DMode_A,4,"argb"},{"rgb",DMode_RGB,3,"rgb"},{"a",DMode_A,1,"a"},{"z",DMode_Z,1,"z"},{"rgbaz",DMode_RGB|DMode_A|DMode_Z,5,"argbz"},{"foo",0,1,"r"},{"foo",0,2,"rg"},{"foo",0,3,"rgb"},{"foo",0,4,"rgba"},{"foo",0,6,"rgba"}};
struct Fill { CqChannelBuffer b; std::vector<float>* v; };
// the value of the channel which carries the display channel c
static float chan(const Case& k,char c,const float* v){ if(k.id==0) return v[5+(c=='r'?0:c=='g'?1:c=='b'?2:3)]; return c=='r'?v[0]:c=='g'?v[1]:c=='b'?v[2]:c=='a'?v[3]:v[4]; }
static void setup(DOpts& o,int x0,int y0,int x1,int y1){ renderer(o,x0,y0,x1,y1); g_rendvt[slotOf(&CqRenderer::matSpaceToSpace)]=_ZTV7RendMat[2]; g_rendvt[slotOf(&CqRenderer::Time)]=_ZTV7RendMat[3]; g_fmtName=new std::string[8]; g_opened=g_bad=g_esz=0; g_origin[0]=g_origin[1]=0; for(int y=0;y<MAXW;++y) for(int x=0;x<MAXW;++x) g_px[y][x].seen=0; }
static void buffer(CqChannelBuffer& b,int w,int h){ b.addChannel("Ci",3); b.addChannel("a",1); b.addChannel("z",1); b.addChannel("foo",6); b.allocate(w,h); }
static void put(CqChannelBuffer& b,int x,int y,const float* v){ const char* n[]={"Ci","a","z","foo"}; int s[]={3,1,1,6},k=0; for(int i=0;i<4;++i){ CqChannelBuffer::TqChannelPtr p=b(x,y,b.getChannelIndex(n[i])); for(int j=0;j<s[i];++j) p[j]=v[k++]; } }

// ---- quantisation --------------------------------------------------------------------------------------------------
//@default mode=real replace="_ZN5Aqsis8CqRandom11RandomFloatEv=>stub_rfloat;^gethostname$=>stub_hostname;^sprintf$=>stub_sprintf"
// q: one, min, max, dither; x: the value of one channel of the only pixel
static void quantise(const Case& cs,const float* q,int type,int size,float x,bool wide){
	DOpts o; o.hasQ=true; o.qname=cs.id==0?"foo":cs.id&DMode_Z?"Depth":"Color"; memcpy(o.q,q,sizeof(o.q)); setup(o,0,0,1,1); for(int i=0;i<8;++i) g_order[i]=i; g_flags=0;
	CqDDManager& dd=*new CqDDManager; dd.AddDisplay("out","debugdd",cs.mode,cs.id,0,cs.size,std::map<std::string,void*>()); dd.OpenDisplays(1,1); vp_assert(g_opened==1 && g_w==1 && g_h==1,"the display is opened with the size of the image");
	CqChannelBuffer b; buffer(b,1,1); float v[11]; for(int i=0;i<11;++i) v[i]=0.25f; int ch=wide?vp_pick("ch",g_nfmt):0; int at=g_fmtName[ch][0]; for(int i=0;i<11;++i){ float w[11]={0,0,0,0,0,0,0,0,0,0,0}; w[i]=1; if(chan(cs,at,w)==1) v[i]=x; } put(b,0,0,v);
	dd.DisplayBucket(CqRegion(0,0,1,1),&b); vp_assert(g_bad==0 && g_px[0][0].seen==1 && g_esz==g_nfmt*size && g_fmtType[ch]==(unsigned)type,"a pixel is sent in the smallest format which holds the range");
	const unsigned char* d=g_px[0][0].b+ch*size; double r; switch(type){ case PkDspyUnsigned8: r=*d; break; case PkDspySigned8: r=*(const signed char*)d; break; case PkDspyUnsigned16: r=*(const unsigned short*)d; break; case PkDspySigned16: r=*(const short*)d; break; case PkDspyUnsigned32: r=*(const unsigned*)d; break; case PkDspySigned32: r=*(const int*)d; break; default: r=*(const float*)d; }
	double e=vp_is_symbolic()?0:1e-2; if(type==PkDspyFloat32) vp_assert(r==x,"without quantisation the value itself is sent"); else { double lo=x*(double)q[0]-0.5,hi=lo+1+q[3]; double mn=q[1],mx=q[2]>4294967295.0?4294967295.0:q[2]; vp_assert(r>=mn && r<=mx,"the value is within the range"); if(r>mn && r<mx) vp_assert((r>=lo-e)&(r<=hi+e),"rounded to the nearest, plus the dither"); if(r==mn) vp_assert(lo<=mn+e,"clamped from below"); if(r==mx) vp_assert(hi>=mx-e,"clamped from above"); }
	dd.CloseDisplays(); vp_assert(g_opened==0,"the display is closed once"); vp_reach("end");
}
//@proof quantise splitint=24 shards=8 nomerge=1
PROOF(quantise){
	static const struct{ float q[4]; int type,size; } qs[]={{{5,0,255,0.5f},PkDspyUnsigned8,1},{{5,1,4,0},PkDspyUnsigned8,1},{{6,0,256,2},PkDspyUnsigned16,2},{{4,0,65536,0},PkDspyUnsigned32,4},{{5,-2,3,1},PkDspySigned8,1},{{6,-129,5,0.5f},PkDspySigned16,2},{{-5,-4,128,0},PkDspySigned16,2},{{4,-32769,3,0},PkDspySigned32,4},{{0,0,0,0},PkDspyFloat32,4}};
	int k=vp_pick("k",36),c=k/9; auto& Q=qs[k%9]; quantise(cases[c==0?1:c==1?3:c==2?5:8],Q.q,Q.type,Q.size,vp_f32_in("x",-1,2),true);
}
//@proof quantise_full native=0 shards=8 bounded="the quantisers in common use, at 12 values each"
PROOF(quantise_full){
	static const struct{ float q[4]; int type,size; } qs[]={{{255,0,255,0},PkDspyUnsigned8,1},{{65535,0,65535,0},PkDspyUnsigned16,2},{{255,0,256,0},PkDspyUnsigned16,2},{{4294967296.0f,0,4294967296.0f,0},PkDspyUnsigned32,4},{{127,-128,127,0},PkDspySigned8,1},{{32767,-32768,32767,0},PkDspySigned16,2},{{200,-128,200,0},PkDspySigned16,2},{{1000000,-32769,2000000,0},PkDspySigned32,4}};
	static const float xs[]={0,1,0.5f,-1,2,100000,-100000,0.001953125f,0.0019550323f,0.99804688f,0.123f,-0.4f}; int k=vp_pick("k",8); auto& Q=qs[k]; quantise(cases[k&1?0:7],Q.q,Q.type,Q.size,xs[vp_pick("x",12)],true);
}

// ---- layout: every pixel once, at its place, with its channels in the order of the display -----------------------------
struct Img { int W,H,bw,bh,x0,y0,x1,y1; };
static const Img imgs[]={{5,3,2,2,0,0,5,3},{4,4,2,2,1,1,4,3},{6,5,3,2,2,1,5,5},{6,4,2,3,4,0,6,3},{5,5,2,2,1,2,3,4}};
static void layout(const Case& cs,const Img& im,int rot,bool lines,bool two){
	DOpts o; o.hasQ=true; o.qname=cs.id==0?"foo":cs.id&DMode_Z?"Depth":"Color"; o.q[0]=o.q[1]=o.q[2]=o.q[3]=0; o.res[0]=im.W; o.res[1]=im.H; setup(o,im.x0,im.y0,im.x1,im.y1); int n=cs.size>4&&cs.id==0?4:cs.size; for(int i=0;i<8;++i) g_order[i]=i<n?(i+rot)%n:i; g_flags=lines;
	CqDDManager& dd=*new CqDDManager; dd.AddDisplay("out","debugdd",cs.mode,cs.id,0,cs.size,std::map<std::string,void*>()); dd.OpenDisplays(im.x1-im.x0,im.y1-im.y0); vp_assert(g_opened==1 && g_nfmt==n && g_origin[0]==im.x0 && g_origin[1]==im.y0,"the display knows its channels and where its image lies");
	float base=vp_f32_in("base",0,1); CqChannelBuffer& b=*new CqChannelBuffer;
	for(int by=im.y0/im.bh;by*im.bh<im.y1;++by) for(int bx=im.x0/im.bw;bx*im.bw<im.x1;++bx){ int X0=bx*im.bw,Y0=by*im.bh,X1=X0+im.bw<im.W?X0+im.bw:im.W,Y1=Y0+im.bh<im.H?Y0+im.bh:im.H; b.clearChannels(); buffer(b,X1-X0,Y1-Y0); for(int y=Y0;y<Y1;++y) for(int x=X0;x<X1;++x){ float v[11]; for(int i=0;i<11;++i) v[i]=base+16*i+x*256+y*4096; put(b,x-X0,y-Y0,v); } dd.DisplayBucket(CqRegion(X0,Y0,X1,Y1),&b); }
	vp_assert(g_bad==0 && g_esz==4*n,"lines are sent whole, and nothing outside the image");
	for(int y=0;y<im.H;++y) for(int x=0;x<im.W;++x){ Px& p=g_px[y][x]; bool in=x>=im.x0&&x<im.x1&&y>=im.y0&&y<im.y1; if(!in){ vp_assert(p.seen<=1 && !(lines&&p.seen),"no pixel is sent twice"); continue; } vp_assert(p.seen==1,"every pixel of the image is sent exactly once"); for(int c=0;c<n;++c){ float v[11]; for(int i=0;i<11;++i) v[i]=base+16*i+x*256+y*4096; vp_assert(g_fmtName[c]==std::string(1,cs.names[(c+rot)%n]),"the channels are those of the display"); vp_assert(((float*)p.b)[c]==chan(cs,g_fmtName[c][0],v),"each channel of a pixel carries its own value"); } }
	dd.CloseDisplays(); vp_assert(g_opened==0,"the display is closed once"); vp_reach("end");
}
//@proof layout shards=8 bounded="images of up to 6 by 5 pixels, with and without crop windows"
PROOF(layout){ int k=vp_pick("k",40),m=vp_pick("im",5); const Case& c=cases[k%10]; layout(c,imgs[m],(k/10)%2?1+m%3:0,k/20,false); }

// ---- parameters of a display -------------------------------------------------------------------------------------------
static const UserParameter* param(const char* n){ const UserParameter* r=0; for(int i=0;i<g_np;++i) if(!strcmp(g_p[i].name,n)){ vp_assert(r==0,"each parameter is given once"); r=g_p+i; } return r; }
//@proof parameters ctors=1 splitint=24 nomerge=1
PROOF(parameters){
	DOpts o; o.res[0]=9; o.res[1]=7; o.clip[0]=vp_f32_in("near",0,1); o.clip[1]=50; setup(o,2,3,6,6); new(&((CqRenderer*)g_rend)->m_tokenDict) TokenDict; for(int i=0;i<8;++i) g_order[i]=i; g_flags=0;
	float q[4]={1,5,0,9},dith=0,f[2]={vp_f32_in("f",-9,9),2}; int n[3]={vp_i32("n"),5,-6}; const char* s[2]={"abc","x"}; float vary=1; std::map<std::string,void*> m; int given=vp_pick("given",2); if(given){ m["uniform float[4] quantize"]=q; m["float dither"]=&dith; } m["float[2] ff"]=f; m["int[3] nn"]=n; m["string[2] ss"]=s; m["varying float vv"]=&vary;
	if(!given){ o.hasQ=true; o.qname="Color"; o.q[0]=4; o.q[1]=0; o.q[2]=9; o.q[3]=0; }
	CqDDManager& dd=*new CqDDManager; dd.AddDisplay("out","debugdd","a",DMode_A,0,1,m); dd.OpenDisplays(4,3);
	const UserParameter* p=param("ff"); vp_assert(p && p->vtype=='f' && p->vcount==2 && p->nbytes==8 && ((float*)p->value)[0]==f[0] && ((float*)p->value)[1]==2,"float parameters reach the display");
	p=param("nn"); vp_assert(p && p->vtype=='i' && p->vcount==3 && p->nbytes==12 && ((int*)p->value)[0]==n[0] && ((int*)p->value)[1]==5 && ((int*)p->value)[2]==-6,"integer parameters reach the display");
	p=param("ss"); vp_assert(p && p->vtype=='s' && p->vcount==2 && !strcmp(((char**)p->value)[0],"abc") && !strcmp(((char**)p->value)[1],"x"),"string parameters reach the display");
	vp_assert(!param("quantize") && !param("dither") && !param("vv"),"the quantiser is applied by the renderer; varying parameters are ignored");
	p=param("near"); vp_assert(p && ((float*)p->value)[0]==o.clip[0],"the near clipping plane is given"); p=param("far"); vp_assert(p && ((float*)p->value)[0]==50,"the far clipping plane is given");
	p=param("OriginalSize"); vp_assert(p && p->vcount==2 && ((int*)p->value)[0]==9 && ((int*)p->value)[1]==7,"the size of the whole frame is given"); p=param("origin"); vp_assert(p && ((int*)p->value)[0]==2 && ((int*)p->value)[1]==3,"the origin of the crop window is given"); vp_assert(param("NP") && param("NP")->vcount==16 && param("Nl") && param("Nl")->vcount==16 && param("Software") && param("HostComputer") && param("PixelAspectRatio"),"the standard parameters are given");
	CqChannelBuffer b; buffer(b,1,1); float v[11],x=vp_f32_in("x",0,1); for(int i=0;i<11;++i) v[i]=x; put(b,0,0,v); dd.DisplayBucket(CqRegion(4,4,5,5),&b); double r=g_px[4][4].b[0],w=given?1+x*4:x*4,e=vp_is_symbolic()?0:1e-3; vp_assert(g_px[4][4].seen==1 && (r>=w-0.5-e)&(r<=w+0.5+e),"a value is scaled between the zero and the one of the quantiser"); dd.CloseDisplays(); dd.ClearDisplays(); vp_reach("end");
}
// a display whose driver is missing is skipped, unless it is the first
//@proof missing
PROOF(missing){
	DOpts o; setup(o,0,0,1,1); for(int i=0;i<8;++i) g_order[i]=i; g_flags=0; o.hasQ=true; o.qname="Color"; o.q[0]=o.q[1]=o.q[2]=o.q[3]=0; int which=vp_pick("which",3); CqDDManager& dd=*new CqDDManager; CqString* ok=g_drv; 
	for(int i=0;i<2;++i) dd.AddDisplay("out",i==which?"none":"debugdd","rgb",DMode_RGB,0,3,std::map<std::string,void*>()); g_missing="none"; bool failed=false; try{ dd.OpenDisplays(1,1); } catch(XqInvalidFile&){ failed=true; } vp_assert(failed==(which==0),"only a missing primary display is an error"); if(failed) return;
	vp_assert(g_opened==(which==1?1:2),"the other displays are opened"); CqChannelBuffer b; buffer(b,1,1); float v[11],x=vp_f32("x"); for(int i=0;i<11;++i) v[i]=x; put(b,0,0,v); dd.DisplayBucket(CqRegion(0,0,1,1),&b); vp_assert(g_px[0][0].seen==g_opened && (((float*)g_px[0][0].b)[0]==x || x!=x),"and receive the image"); dd.CloseDisplays(); vp_assert(g_opened==0,"and are closed"); (void)ok; vp_reach("end");
}
