// C15: texture lookups read each pixel of the filter region exactly once, wrapped as asked, and weight it correctly.
//@flags -DAQSIS_TEX_EXPORTS -I/usr/include/OpenEXR -I/usr/include/Imath -I/repo/libs/tex/filtering -I/repo/libs/tex/io -I/repo/libs/tex/maketexture
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume texture files deliver the tiles asked for (IqTiledTexInputFile::readTileImpl is a stand-in file); the random table holds values in [0,1)
//@assume filter weights, shadow amounts and sample regions are proved over the reals (rounding is cross-checked natively)
#include "contract.h"
#include "ostream_model.h"
#include <aqsis/tex/buffers/tilearray.h>
#include <aqsis/tex/filtering/samplequad.h>
#include "libs/math/matrix.cpp"
#include "libs/math/random.cpp"
#include "libs/tex/filtering/ewafilter.cpp"
#include "libs/tex/filtering/cachedfilter.cpp"
#include "libs/tex/filtering/depthapprox.h"
#include "libs/tex/maketexture/downsample.h"
#include "libs/tex/filtering/mipmap.h"
using namespace Aqsis;
typedef TqFloat F;
static bool near(double a,double b,double r,double t){ return fabs(a-b)<=t+r*fabs(b); }
// the random table: any contents in [0,1)
namespace Aqsis { namespace detail { static F rnd(const char* n){ F v=vp_f32_in(n,0,1); vp_assume(v<1); return v; } }
Cq2dQuasiRandomTable::Cq2dQuasiRandomTable() : m_rand() { }
namespace detail { Cq2dQuasiRandomTable g_randTab; } }
extern "C" void stub_unnamed(CqChannelList* l,EqChannelType t,TqInt n){ for(int i=0;i<n;++i) l->addChannel(SqChannelInfo(i?"b":"a",t)); }
extern "C" F stub_random(){ return Aqsis::detail::rnd("rand"); }
extern "C" F stub_tabx(){ return Aqsis::detail::rnd("tabx"); }
extern "C" F stub_taby(){ return Aqsis::detail::rnd("taby"); }

// ---- texture buffers -----------------------------------------------------------------------------------------------
template<class T> static double top(){ return (double)std::numeric_limits<T>::max(); }
template<class T> static T conv(F f){ CqTextureBuffer<T> b(1,1,1); F v[1]={f}; b.setPixel(0,0,v); return b.value(0,0)[0]; }
template<class T> static F unconv(T t){ CqTextureBuffer<T> b(1,1,1); b.value(0,0)[0]=t; return b(0,0)[0]; }
template<class T> static void quant(){
	F f=vp_f32_near("f",-0.5f,1.5f); vp_assume(f==f); double d=(double)conv<T>(f);
	if(f<=0) vp_assert(d==0,"values below zero give zero"); else if(f>=1) vp_assert(d==top<T>(),"full intensity gives the maximum");
	else { double e=d-f*top<T>(), t=vp_is_symbolic()?0.5:0.5001; vp_assert(e<=t,"values between are rounded to the nearest level"); vp_assert(e>=-t,"values between are rounded to the nearest level"); } vp_reach("q");
}
//@proof quantise mode=real shards=3
PROOF(quantise){ switch(vp_pick("type",3)){ case 0: quant<TqUint8>(); break; case 1: quant<TqUint16>(); break; default: quant<TqUint32>(); } }
template<class T> static void ends(){ vp_assert(conv<T>(1.0f)==std::numeric_limits<T>::max() && conv<T>(0.0f)==0,"white stays white and black black"); vp_assert(conv<T>(7.5f)==std::numeric_limits<T>::max() && conv<T>(-3.0f)==0,"out of range values are clamped"); vp_assert(unconv<T>(std::numeric_limits<T>::max())==1.0f && unconv<T>(0)==0.0f,"the extreme levels read as 0 and 1"); }
//@proof extremes mode=fp
PROOF(extremes){ int v=vp_pick("v",256); vp_assert(conv<TqUint8>(unconv<TqUint8>(v))==v,"every 8 bit level survives"); int w=v*257; vp_assert(conv<TqUint16>(unconv<TqUint16>(w))==w,"16 bit levels survive"); switch(v){ case 0: ends<TqUint8>(); break; case 1: ends<TqUint16>(); break; case 2: ends<TqUint32>(); break; case 3: { F f=vp_f32("f"); vp_assert(vp_bits(conv<TqFloat>(f))==vp_bits(f) || f!=f,"float buffers keep every value"); vp_assert(vp_bits(unconv<TqFloat>(f))==vp_bits(f) || f!=f,"float buffers return every value"); break; } } }

// a position code for each pixel and channel, so that every pixel is distinguishable
static F code(int x,int y,int c){ return 1+x+16*y+256*c; }
struct Rec { int n[12][18]; int len; int c0; bool ok; int tot; Rec():len(0),c0(0),ok(true),tot(0){ for(int i=0;i<12;++i) for(int j=0;j<18;++j) n[i][j]=0; }
	bool setSampleVectorLength(TqInt l){ len=l; return ok; }
	int (*want)(int x,int y,int& wx,int& wy); // 0: must not be visited, 1: pixel wx,wy, 2: black
	template<class V> void accumulate(TqInt x,TqInt y,const V& s){ vp_assert(x>=-8 && x<10 && y>=-5 && y<7,"only positions of the region are accumulated"); ++n[y+5][x+8]; ++tot; int wx=0,wy=0,k=want(x,y,wx,wy); vp_assert(k!=0,"only positions of the region are accumulated"); for(int c=0;c<len;++c) vp_assert(s[c]==(k==2?0:code(wx,wy,c)),"each position is given the pixel which the wrap modes select"); } };
static int W,H,X0,X1,Y0,Y1; static EqWrapMode SW,TW;
static int mod(int a,int b){ int r=a%b; return r<0?r+b:r; }
static int wantwrap(int x,int y,int& wx,int& wy){ if(x<X0 || x>=X1 || y<Y0 || y>=Y1) return 0; bool ox=x<0||x>=W, oy=y<0||y>=H; if((ox && SW==WrapMode_Black) || (oy && TW==WrapMode_Black)) return 2; wx=SW==WrapMode_Periodic?mod(x,W):x<0?0:x>=W?W-1:x; wy=TW==WrapMode_Periodic?mod(y,H):y<0?0:y>=H?H-1:y; return 1; }
static int wantcut(int x,int y,int& wx,int& wy){ if(x<X0 || x>=X1 || y<Y0 || y>=Y1 || x<0 || x>=W || y<0 || y>=H) return 0; wx=x; wy=y; return 1; }
static void once(Rec& r){ int bad=0; for(int y=-5;y<7;++y) for(int x=-8;x<10;++x){ int a,b; int w=r.want(x,y,a,b)?1:0; if(r.n[y+5][x+8]!=w) ++bad; } vp_assert(bad==0,"every position of the region is accumulated exactly once"); }
template<class B> static void fill(B& b){ for(int y=0;y<b.height();++y) for(int x=0;x<b.width();++x){ F v[4]; for(int c=0;c<b.numChannels();++c) v[c]=code(x,y,c); b.setPixel(x,y,v); } }
static const int RX[9][2]={{-2,3},{0,1},{-1,7},{2,5},{1,1},{-5,-2},{4,9},{-7,0},{3,2}};
static const int RY[7][2]={{-3,4},{0,2},{1,2},{-4,-1},{2,6},{0,0},{5,3}};
static void region(int i,int j){ X0=RX[i][0]; X1=RX[i][1]; Y0=RY[j][0]; Y1=RY[j][1]; }
//@proof wrap mode=fp shards=8 bounded="buffers of 1 to 3 by 1 to 2 pixels, 35 regions around and beyond them"
PROOF(wrap){
	int m=vp_pick("modes",9); SW=(EqWrapMode)(m%3); TW=(EqWrapMode)(m/3); W=1+vp_pick("w",3); H=1+vp_pick("h",2); region(vp_pick("rx",7),vp_pick("ry",5)); CqTextureBuffer<F> b(W,H,1); fill(b);
	Rec r; r.want=wantwrap; filterTexture(r,b,SqFilterSupport(X0,X1,Y0,Y1),SqWrapModes(SW,TW)); vp_assert(r.len==1,"the accumulator is told the number of channels"); once(r);
}
//@proof nowrap mode=fp shards=8 bounded="buffers of 1 to 4 by 1 to 3 pixels, 63 regions around and beyond them"
PROOF(nowrap){ int i=vp_pick("rx",9); W=1+vp_pick("w",4); H=1+vp_pick("h",3); region(i,vp_pick("ry",7)); CqTextureBuffer<F> b(W,H,2); fill(b); Rec r; r.want=wantcut; filterTextureNowrap(r,b,SqFilterSupport(X0,X1,Y0,Y1)); once(r); Rec q; q.want=wantcut; q.ok=false; filterTextureNowrap(q,b,SqFilterSupport(X0,X1,Y0,Y1)); filterTexture(q,b,SqFilterSupport(X0,X1,Y0,Y1),SqWrapModes(WrapMode_Clamp,WrapMode_Clamp)); vp_assert(q.tot==0,"an accumulator which cannot use the channels gets no samples"); }
//@proof buffer mode=fp replace="_ZN5Aqsis13CqChannelList18addUnnamedChannelsENS_13EqChannelTypeEi=>stub_unnamed"
PROOF(buffer){
	CqTextureBuffer<F> b(3,2,2); fill(b); int p=vp_pick("pixel",6); F v[2]={vp_f32("a"),vp_f32("b")}; vp_assume(v[0]==v[0] && v[1]==v[1]); b.setPixel(p%3,p/3,v);
	for(int y=0;y<2;++y) for(int x=0;x<3;++x) for(int c=0;c<2;++c) vp_assert(b(x,y)[c]==(y*3+x==p?v[c]:code(x,y,c)) && b.value(x,y)[c]==b(x,y)[c],"setting a pixel changes that pixel only");
	CqTextureBuffer<F> d(b); vp_assert(d.width()==3 && d.height()==2 && d.numChannels()==2 && d.channelList().numChannels()==2 && d.channelList().sharedChannelType()==Channel_Float32,"copies have the same shape"); CqTextureBuffer<double> e(b); for(int y=0;y<2;++y) for(int x=0;x<3;++x) for(int c=0;c<2;++c) vp_assert(e(x,y)[c]==b(x,y)[c],"conversion copies every pixel");
	CqTextureBuffer<F> g(1,1,1); g.resize(2,3,2); fill(g); for(int y=0;y<3;++y) for(int x=0;x<2;++x) for(int c=0;c<2;++c) vp_assert(g(x,y)[c]==code(x,y,c),"a resized buffer stores every pixel"); CqChannelList l; l.addUnnamedChannels(Channel_Float32,3); g.resize(4,1,l); vp_assert(g.numChannels()==3 && g.width()==4 && g.height()==1,"resizing to a channel list"); CqChannelList l8; l8.addUnnamedChannels(Channel_Unsigned8,3); bool th=false; try { g.resize(4,1,l8); } catch(XqInternal&){ th=true; } vp_assert(th,"channels of another type are refused");
}

// ---- filter regions ------------------------------------------------------------------------------------------------
//@proof support
PROOF(support){
	int a=vp_i32("a"),b=vp_i32("b"),c=vp_i32("c"),d=vp_i32("d"),p=vp_i32("p"); SqFilterSupport1D s(a,b), t(c,d); bool inS=p>=a && p<b, inT=p>=c && p<d;
	SqFilterSupport1D i=intersect(s,t); vp_assert((p>=i.start && p<i.end)==(inS && inT),"the intersection of two ranges"); SqFilterSupport1D u(s); u.truncate(c,d); vp_assert((p>=u.start && p<u.end)==(inS && inT),"truncation to a range"); if(inS) vp_assert(!s.isEmpty(),"a range with a point is not empty"); if(s.isEmpty()) vp_assert(!s.intersectsRange(c,d),"an empty range intersects nothing"); else { vp_assert(a<b,"empty exactly if the end is not after the start"); if(inS && inT) vp_assert(s.intersectsRange(c,d),"ranges with a common point intersect"); if(s.intersectsRange(c,d) && c<d) vp_assert(!i.isEmpty(),"intersecting ranges have a common point"); if(s.inRange(c,d) && inS) vp_assert(inT,"a range inside another"); if(!s.inRange(c,d)) vp_assert(a<c || b>d,"a range not inside another"); }
	int e=vp_i32("e"),f=vp_i32("f"),g=vp_i32("g"),h=vp_i32("h"),q=vp_i32("q"); SqFilterSupport S(a,b,e,f),T(c,d,g,h); SqFilterSupport I=intersect(S,T); bool iS=inS && q>=e && q<f, iT=inT && q>=g && q<h; vp_assert((p>=I.sx.start && p<I.sx.end && q>=I.sy.start && q<I.sy.end)==(iS && iT),"the intersection of two regions"); if(iS) vp_assert(!S.isEmpty(),"a region with a point is not empty"); if(iS && iT) vp_assert(S.intersectsRange(c,d,g,h),"regions with a common point intersect"); if(S.inRange(c,d,g,h) && iS) vp_assert(iT,"a region inside another");
}

// ---- tiled textures ------------------------------------------------------------------------------------------------
struct File : IqTiledTexInputFile { int w,h,tw,th,levels,*ws,*hs; CqTexFileHeader hd; mutable int reads[8][8]; File(int w,int h,int tw,int th,int ch=1):w(w),h(h),tw(tw),th(th),levels(1),ws(0),hs(0){ hd.setWidth(w); hd.setHeight(h); hd.channelList().addUnnamedChannels(Channel_Float32,ch); for(int i=0;i<8;++i) for(int j=0;j<8;++j) reads[i][j]=0; }
	virtual boostfs::path fileName() const { return boostfs::path(); } virtual EqImageFileType fileType() const { return ImageFile_Tiff; } virtual const CqTexFileHeader& header(TqInt) const { return hd; } virtual SqTileInfo tileInfo() const { return SqTileInfo(tw,th); } virtual TqInt numSubImages() const { return levels; } virtual TqInt width(TqInt i) const { return ws?ws[i]:w; } virtual TqInt height(TqInt i) const { return hs?hs[i]:h; }
	virtual void readTileImpl(TqUint8* buf,TqInt x,TqInt y,TqInt sub,const SqTileInfo s) const { vp_assert(x>=0 && y>=0 && x*tw<w && y*th<h,"only tiles of the image are read"); vp_assert(s.width==(w-x*tw<tw?w-x*tw:tw) && s.height==(h-y*th<th?h-y*th:th),"tiles are cut off at the right and bottom edge"); vp_assert(++reads[y][x]==1,"each tile is read once"); F* p=(F*)buf; int ch=hd.channelList().numChannels(); for(int j=0;j<s.height;++j) for(int i=0;i<s.width;++i) for(int c=0;c<ch;++c) *p++=code(x*tw+i,y*th+j,c); } };
//@proof tiles mode=fp replace="_ZN5Aqsis13CqChannelList18addUnnamedChannelsENS_13EqChannelTypeEi=>stub_unnamed" shards=8 bounded="images of up to 5 by 4 pixels, tiles of 1 to 3 by 2 pixels, 42 regions"
PROOF(tiles){ int k=vp_pick("size",8); W=2+k%4; H=1+3*(k/4); int tw=1+vp_pick("tw",3),th=2; region(vp_pick("rx",7),vp_pick("ry",6)); boost::shared_ptr<File> f(new File(W,H,tw,th,2)); CqTileArray<F> a(f,0); vp_assert(a.width()==W && a.height()==H && a.numChannels()==2,"the array has the size of the image"); Rec r; r.want=wantcut; filterTextureNowrap(r,a,SqFilterSupport(X0,X1,Y0,Y1)); once(r); }
//@proof tile_wrap mode=fp replace="_ZN5Aqsis13CqChannelList18addUnnamedChannelsENS_13EqChannelTypeEi=>stub_unnamed" shards=8 bounded="images of 2 by 3 and 3 by 1 pixels, tiles of 2 by 2 pixels, 16 regions"
PROOF(tile_wrap){ int m=vp_pick("modes",9); SW=(EqWrapMode)(m%3); TW=(EqWrapMode)(m/3); int k=vp_pick("size",2); W=k&1?3:2; H=k?1:3; region(vp_pick("rx",4),vp_pick("ry",4)); boost::shared_ptr<File> f(new File(W,H,2,2,1)); CqTileArray<F> a(f,0); Rec r; r.want=wantwrap; filterTexture(r,a,SqFilterSupport(X0,X1,Y0,Y1),SqWrapModes(SW,TW)); once(r); for(int y=0;y<H;++y) for(int x=0;x<W;++x) vp_assert(a(x,y)[0]==code(x,y,0),"pixels are found by position"); }
struct Cnt { int n; Cnt():n(0){} bool setSampleVectorLength(TqInt){ return true; } template<class V> void accumulate(TqInt x,TqInt y,const V& s){ ++n; vp_assert(x>=X0 && x<X1 && y>=Y0 && y<Y1 && x>=0 && x<W && y>=0 && y<H,"random samples lie in the region"); vp_assert(s[0]==code(x,y,0),"random samples read the pixel at their position"); } };
//@proof random_table mode=real
PROOF(random_table){ Cq2dQuasiRandomTable& t=detail::g_randTab; TqUint i=vp_u32("i"); t.m_x[i&1023]=detail::rnd("x"); t.m_y[i&1023]=detail::rnd("y"); t.m_offsetX=detail::rnd("ox"); t.m_offsetY=detail::rnd("oy"); F x=t.x(i),y=t.y(i); vp_assert(x>=0 && x<1,"shifted random positions stay in the unit interval"); vp_assert(y>=0 && y<1,"shifted random positions stay in the unit interval"); }
//@proof random_place mode=real replace="_ZN5Aqsis8CqRandom11RandomFloatEv=>stub_random;_ZNK5Aqsis20Cq2dQuasiRandomTable1xEj=>stub_tabx;_ZNK5Aqsis20Cq2dQuasiRandomTable1yEj=>stub_taby" bounded="buffers of up to 4 by 3 pixels, six regions"
PROOF(random_place){ int k=vp_pick("size",4); W=k&1?4:1; H=k&2?3:1; int e=vp_pick("r",6); X0=e%3-1; X1=X0+1+e/3*2; Y0=-1; Y1=2; if(X1>W) X1=W; CqTextureBuffer<F> b(W,H,1); fill(b); if(X1<=X0 || X1<=0) return; Cnt c; filterTextureNowrapStochastic(c,b,SqFilterSupport(X0,X1,Y0,Y1),2); vp_assert(c.n==2,"as many random samples as asked for"); vp_reach("r"); }
//@proof random_tiles mode=real replace="_ZN5Aqsis8CqRandom11RandomFloatEv=>stub_random;_ZNK5Aqsis20Cq2dQuasiRandomTable1xEj=>stub_tabx;_ZNK5Aqsis20Cq2dQuasiRandomTable1yEj=>stub_taby;_ZN5Aqsis13CqChannelList18addUnnamedChannelsENS_13EqChannelTypeEi=>stub_unnamed" nomerge=1 shards=8 bounded="images of 3 or 4 by 1 or 3 pixels in tiles of 2 by 2, one or two samples"
PROOF(random_tiles){ int k=vp_pick("case",8), n=k%2+1; W=k/2&1?4:3; H=k/4?3:1; X0=1; X1=W; Y0=-1; Y1=H; boost::shared_ptr<File> f(new File(W,H,2,2,1)); CqTileArray<F> a(f,0); Cnt c; filterTextureNowrapStochastic(c,a,SqFilterSupport(X0,X1,Y0,Y1),n); vp_assert(c.n==n,"as many random samples as asked for, over all tiles"); vp_reach("r"); }

// ---- accumulation --------------------------------------------------------------------------------------------------
struct Wt { bool norm; F w[4]; bool isNormalized() const { return norm; } F operator()(TqInt x,TqInt y) const { return w[y*2+x]; } };
static bool eq(double a,double b){ return vp_is_symbolic()?a==b:near(a,b,1e-3,1e-3); }
static void weights(Wt& w){ const char* n[4]={"w0","w1","w2","w3"}; for(int i=0;i<4;++i){ w.w[i]=vp_f32_near(n[i],-4,4); vp_assume(w.w[i]>=-16 && w.w[i]<=16); } }
//@proof accumulate mode=real shards=8
PROOF(accumulate){
	int k=vp_pick("case",24), start=k%3, num=k/3%4+1; Wt w; w.norm=k>=12; weights(w); F s[2][3]; const char* sn[6]={"s0","s1","s2","s3","s4","s5"}; for(int i=0;i<6;++i) s[i/3][i%3]=vp_f32_in(sn[i],-8,8); F out[6]={7,7,7,7,7,7}; F fl=vp_f32_in("fill",-1,1);
	{ CqSampleAccum<Wt> a(w,start,num,out+1,fl); vp_assert(a.setSampleVectorLength(3)==(start<3),"samples are wanted if there is a channel to read"); a.accumulate(0,0,(const F*)s[0]); a.accumulate(1,1,(const F*)s[1]); }
	double tot=(double)w.w[0]+w.w[3]; if(!vp_is_symbolic() && fabs(tot)<0.01) return; vp_assert(out[0]==7 && out[num+1]==7,"only the channels asked for are written");
	for(int c=0;c<num;++c){ if(start+c>=3){ vp_assert(out[1+c]==fl,"missing channels are given the fill value"); continue; } double sum=(double)w.w[0]*s[0][start+c]+(double)w.w[3]*s[1][start+c]; if(w.norm) vp_assert(eq(out[1+c],sum),"normalised weights: the weighted sum"); else if(tot!=0) vp_assert(vp_is_symbolic()?out[1+c]*tot==sum:eq(out[1+c],sum/tot),"other weights: the weighted mean"); }
}
//@proof accumulate_short mode=fp
PROOF(accumulate_short){ Wt w; w.norm=true; w.w[0]=1; F out[2]={7,7}; F fl=vp_f32("fill"); vp_assume(fl==fl); { CqSampleAccum<Wt> a(w,3,2,out,fl); vp_assert(!a.setSampleVectorLength(3),"no samples wanted"); } vp_assert(out[0]==fl && out[1]==fl,"missing channels are given the fill value"); { CqSampleAccum<Wt> a(w,1,2,out,fl); } vp_assert(out[0]==0 && out[1]==0,"no samples give black"); { CqSampleAccum<Wt> a(w,2,2,out,fl); vp_assert(a.setSampleVectorLength(3) && a.setSampleVectorLength(4),"the length may change"); F s[4]={1,2,3,4}; a.accumulate(0,0,(const F*)s); } vp_assert(out[0]==3 && out[1]==4,"the last length counts"); }
struct Dp { F d[4]; F operator()(F x,F y) const { return d[(int)y*2+(int)x]; } };
//@proof shadow mode=real shards=8
PROOF(shadow){
	int k=vp_pick("case",8); Wt w; w.norm=k&1; weights(w); Dp d; d.d[0]=vp_f32_in("d0",0,100); d.d[3]=vp_f32_in("d3",0,100); F z0=vp_f32_in("z0",0,100), z1=vp_f32_in("z1",0,100), lo=k&2?vp_f32_in("lo",-1,10):0, hi=k&4?vp_f32_in("hi",-1,10):lo; vp_assume(hi>=lo); F out[2]={7,7}; F s0[2]={-1,z0}, s1[2]={-1,z1};
	{ CqPcfAccum<Wt,Dp> a(w,d,1,lo,hi,out); vp_assert(!a.setSampleVectorLength(1) && a.setSampleVectorLength(2),"samples are wanted if the channel exists"); a.accumulate(0,0,(const F*)s0); a.accumulate(1,1,(const F*)s1); } vp_assert(out[1]==7,"one value is written");
	double sh[2]; F dd[2]={d.d[0],d.d[3]}, zz[2]={z0,z1}; if(!vp_is_symbolic() && (fabs(d.d[0]-z0-lo)<1e-3 || fabs(d.d[3]-z1-lo)<1e-3 || fabs(d.d[0]-z0-hi)<1e-3 || fabs(d.d[3]-z1-hi)<1e-3 || fabs((double)w.w[0]+w.w[3])<0.01 || (hi!=lo && hi-lo<1e-2))) return;
	for(int i=0;i<2;++i){ double df=(double)dd[i]-zz[i]; if(lo==hi) sh[i]=df>lo; else sh[i]=df>=hi?1:df>lo?(df-lo)/((double)hi-lo):0; } double tot=(double)w.w[0]+w.w[3], sum=w.w[0]*sh[0]+w.w[3]*sh[1]; if(w.norm) vp_assert(eq(out[0],sum),"the weighted amount of shadow"); else if(tot!=0) vp_assert(vp_is_symbolic()?out[0]*tot==sum:eq(out[0],sum/tot),"the weighted mean amount of shadow");
}
//@proof surface_depth mode=real
PROOF(surface_depth){
	F al=vp_f32_in("al",-4,4),be=vp_f32_in("be",-4,4),ga=vp_f32_in("ga",-4,4), Wd=vp_f32_in("W",1,64),Hd=vp_f32_in("H",1,64); F x[4],y[4]; const char* xn[4]={"x0","x1","x2","x3"}; const char* yn[4]={"y0","y1","y2","y3"}; CqVector3D v[4]; for(int i=0;i<4;++i){ x[i]=vp_f32_in(xn[i],-2,2); y[i]=vp_f32_in(yn[i],-2,2); v[i]=CqVector3D(x[i],y[i],al*x[i]+be*y[i]+ga); }
	double nz=((double)x[3]-x[0])*((double)y[2]-y[1])-((double)y[3]-y[0])*((double)x[2]-x[1]); if(vp_is_symbolic()) vp_assume(nz!=0); else if(fabs(nz)<0.1) return; Sq3DSampleQuad q(v[0],v[1],v[2],v[3]); CqSampleQuadDepthApprox d(q,Wd,Hd); F px=vp_f32_in("px",-8,72),py=vp_f32_in("py",-8,72); double want=al*((double)px+0.5)/Wd+be*((double)py+0.5)/Hd+ga; F got=d(px,py); vp_assert(vp_is_symbolic()?got==want:near(got,want,0.05,0.05),"the depth of a flat surface at each pixel centre");
	vp_reach("d"); CqConstDepthApprox k(ga); vp_assert(k(px,py)==ga,"constant depth");
}

// ---- sample regions ------------------------------------------------------------------------------------------------
static CqVector2D v2(const char* a,const char* b){ F x=vp_f32_in(a,-100,100),y=vp_f32_in(b,-100,100); return CqVector2D(x,y); }
static bool same(const CqVector2D& a,double x,double y){ return vp_is_symbolic()?(a.x()==x && a.y()==y):near(a.x(),x,1e-3,1e-2) && near(a.y(),y,1e-3,1e-2); }
//@proof quad mode=real
PROOF(quad){
	CqVector2D a=v2("ax","ay"),b=v2("bx","by"),c=v2("cx","cy"),d=v2("dx","dy"); SqSampleQuad q(a,b,c,d); CqVector2D m=q.center(); double mx=((double)a.x()+b.x()+c.x()+d.x())/4, my=((double)a.y()+b.y()+c.y()+d.y())/4; vp_assert(same(m,mx,my),"the centre of a quad"); SqSamplePllgram p(q); vp_assert(same(p.c,mx,my),"the centre of its parallelogram"); vp_assert(same(p.s1,((double)b.x()-a.x()+d.x()-c.x())/2,((double)b.y()-a.y()+d.y()-c.y())/2) && same(p.s2,((double)a.x()-c.x()+b.x()-d.x())/2,((double)a.y()-c.y()+b.y()-d.y())/2),"the sides of its parallelogram");
	F xw=vp_pick("unit x",2)?1:vp_f32_in("xw",0,10), yw=vp_pick("unit y",2)?1:vp_f32_in("yw",0,10); q.scaleWidth(xw,yw); CqVector2D o[4]={a,b,c,d}; CqVector2D* r[4]={&q.v1,&q.v2,&q.v3,&q.v4}; for(int i=0;i<4;++i) vp_assert(same(*r[i],mx+xw*(o[i].x()-mx),my+yw*(o[i].y()-my)),"scaling moves the corners away from the centre");
	SqSamplePllgram s(p); s.scaleWidth(xw,yw); vp_assert(same(s.c,mx,my) && same(s.s1,(double)xw*p.s1.x(),(double)yw*p.s1.y()) && same(s.s2,(double)xw*p.s2.x(),(double)yw*p.s2.y()),"scaling a parallelogram scales both sides about the centre");
}
static bool whole(double v){ if(!vp_is_symbolic()) return fabs(v-floor(v+0.5))<1e-3; return std::floor(v)==v; }
//@proof remap mode=real
PROOF(remap){
	int k=vp_pick("case",4); bool px=k&1,py=k&2; CqVector2D c=v2("cx","cy"),s1=v2("ax","ay"),s2=v2("bx","by"); SqSamplePllgram p(c,s1,s2); p.remapPeriodic(px,py); double e=vp_is_symbolic()?0:1e-4; vp_assert(p.s1.x()==s1.x() && p.s1.y()==s1.y() && p.s2.x()==s2.x() && p.s2.y()==s2.y(),"remapping moves the centre only");
	if(px) vp_assert(p.c.x()>=0-e && p.c.x()<=1+e && whole((double)p.c.x()-c.x()),"periodic in s: moved by whole textures onto the texture"); else vp_assert(p.c.x()==c.x(),"not periodic in s: not moved"); if(py) vp_assert(p.c.y()>=0-e && p.c.y()<=1+e && whole((double)p.c.y()-c.y()),"periodic in t: moved by whole textures onto the texture"); else vp_assert(p.c.y()==c.y(),"not periodic in t: not moved");
}
//@proof remap_quad mode=real
PROOF(remap_quad){
	int k=vp_pick("case",4); bool px=k&1,py=k&2; CqVector2D a=v2("ax","ay"),b=v2("bx","by"),c=v2("cx","cy"),d=v2("dx","dy"); SqSampleQuad q(a,b,c,d); q.remapPeriodic(px,py); double e=vp_is_symbolic()?0:1e-4; double sx=(double)q.v1.x()-a.x(), sy=(double)q.v1.y()-a.y(); vp_assert(same(q.v2,b.x()+sx,b.y()+sy) && same(q.v3,c.x()+sx,c.y()+sy) && same(q.v4,d.x()+sx,d.y()+sy),"all corners move together"); double mx=min(min(q.v1.x(),q.v2.x()),min(q.v3.x(),q.v4.x())), my=min(min(q.v1.y(),q.v2.y()),min(q.v3.y(),q.v4.y()));
	if(px) vp_assert(mx>=0-e && mx<=1+e && whole(sx),"periodic in s: the least corner is moved by whole textures onto the texture"); else vp_assert(sx==0,"not periodic in s: not moved"); if(py) vp_assert(my>=0-e && my<=1+e && whole(sy),"periodic in t: the least corner is moved by whole textures onto the texture"); else vp_assert(sy==0,"not periodic in t: not moved");
}

// ---- elliptical filters --------------------------------------------------------------------------------------------
static double QQ; extern "C" F stub_negexp(const detail::CqNegExpTable*,F q){ QQ=q; F w=vp_f32_in("weight",0.001f,1); return w; }
#define NEGEXP "_ZNK5Aqsis6detail13CqNegExpTableclEf=>stub_negexp"
//@proof weight_table mode=fp
PROOF(weight_table){ F x=vp_f32_in("x",0,20); F w=detail::negExpTable(x); vp_assert(x<6 || w==0,"weights beyond the table are zero"); vp_assert(w>=0 && w<=1,"weights lie between 0 and 1"); }
//@proof weight_values mode=fp
PROOF(weight_values){ int i=vp_pick("i",96); F x=i*0.0625f; F w=detail::negExpTable(x); vp_assert(fabs(w-std::exp((double)-x))<0.013,"the weight of a point is exp(-q)"); }
//@proof ewa mode=real replace="_ZNK5Aqsis6detail13CqNegExpTableclEf=>stub_negexp"
PROOF(ewa){
	F a=vp_f32_in("a",0.01f,4),b=vp_f32_in("b",-2,2),d=vp_f32_in("d",0.01f,4),cx=vp_f32_in("cx",-8,8),cy=vp_f32_in("cy",-8,8),L=vp_f32_in("L",1,6),x=vp_f32_in("x",-16,16),y=vp_f32_in("y",-16,16); CqEwaFilter f(SqMatrix2D(a,b,b,d),CqVector2D(cx,cy),L); double dx=(double)x-cx,dy=(double)y-cy,q=a*dx*dx+2.0*b*dx*dy+d*dy*dy; if(!vp_is_symbolic() && (fabs(q-L)<1e-2 || q<0.01 || q>5.9)) return; F w=f(x,y);
	vp_assert((w!=0)==(q<L),"the weight is nonzero inside the ellipse and zero outside"); if(vp_is_symbolic()){ if(w!=0) vp_assert(QQ==q,"the weight is that of the quadratic form at the point"); } else if(w!=0) vp_assert(fabs(w-exp(-q))<0.02,"the weight is that of the quadratic form at the point"); vp_assert(!f.isNormalized(),"elliptical weights are not normalised"); vp_reach("e");
}
//@proof ewa_level mode=real replace="_ZNK5Aqsis6detail13CqNegExpTableclEf=>stub_negexp"
PROOF(ewa_level){ // the filter made for a mipmap level gives a point of the level the weight of the same point of the base texture
	char mem[sizeof(CqEwaFilterFactory)]; CqEwaFilterFactory& e=*(CqEwaFilterFactory*)mem; F a=vp_f32_in("a",0.01f,4),b=vp_f32_in("b",-2,2),c=vp_f32_in("c",-2,2),d=vp_f32_in("d",0.01f,4),cx=vp_f32_in("cx",-8,8),cy=vp_f32_in("cy",-8,8); e.m_quadForm=SqMatrix2D(a,b,c,d); e.m_filterCenter=CqVector2D(cx,cy); e.m_logEdgeWeight=1e9f; e.m_minorAxisWidth=vp_f32_in("minor",0,9); vp_assert(e.minorAxisWidth()==e.m_minorAxisWidth,"minor axis"); int k=vp_pick("id",5); F sx=k&1?1:vp_f32_in("sx",0.01f,1),sy=k&2?1:vp_f32_in("sy",0.01f,1),ox=k?0:vp_f32_in("ox",-9,0),oy=k>=3?0:vp_f32_in("oy",-9,0),x=vp_f32_in("x",-16,16),y=vp_f32_in("y",-16,16);
	CqEwaFilter f0=e.createFilter(), f1=e.createFilter(sx,ox,sy,oy); double dx=(double)x-cx,dy=(double)y-cy,q=a*dx*dx+((double)b+c)*dx*dy+d*dy*dy; QQ=-1; if(!vp_is_symbolic()) return; F w0=f0(x,y); double q0=QQ; vp_assert(q0==q,"base filter"); F w1=f1(sx*(x+ox),sy*(y+oy)); vp_assert(QQ==q0,"the same weight at the corresponding point of the level"); (void)w0; (void)w1;
}
//@proof ewa_support mode=real
PROOF(ewa_support){ // no point outside the support has a weight
	F a=vp_f32_in("a",0.01f,4),b=vp_f32_in("b",-2,2),d=vp_f32_in("d",0.01f,4),cx=vp_f32_in("cx",-8,8),cy=vp_f32_in("cy",-8,8),L=vp_f32_in("L",1,6),X=vp_f32_in("X",-200,200),Y=vp_f32_in("Y",-200,200); F det=SqMatrix2D(a,b,b,d).det(); vp_assume(det>0.001f); if(!vp_is_symbolic()){ X=floor(X); Y=floor(Y); } int x=(int)X,y=(int)Y; vp_assume(x==X && y==Y); F dx=X-cx,dy=Y-cy; double q=(double)a*dx*dx+2.0*b*dx*dy+(double)d*dy*dy; vp_assume(q<(vp_is_symbolic()?L:L-0.05));
	vp_reach("s"); F rx=std::sqrt(d*L/det), ry=std::sqrt(a*L/det);
	bool l1=d*q-(double)det*dx*dx>=(vp_is_symbolic()?0:-1), l2=a*q-(double)det*dy*dy>=(vp_is_symbolic()?0:-1); vp_assert(l1,"lemma: det dx^2 is at most d q"); vp_assert(l2,"lemma: det dy^2 is at most a q"); vp_assume(l1 && l2); if(vp_is_symbolic()){ bool m1=(double)det*dx*dx<d*L, m2=(double)det*dy*dy<a*L; vp_assert(m1,"lemma: det dx^2 is less than d L"); vp_assert(m2,"lemma: det dy^2 is less than a L"); bool r1=rx>=0 && rx*rx*det==d*L && rx<=400, r2=ry>=0 && ry*ry*det==a*L && ry<=400; vp_assert(r1,"lemma: the radius squared"); vp_assert(r2,"lemma: the radius squared"); vp_cut(); vp_assume(m1 && m2 && r1 && r2 && det>0); bool n1=dx<rx && -dx<rx, n2=dy<ry && -dy<ry; vp_assert(n1,"lemma: nearer than the radius in x"); vp_assert(n2,"lemma: nearer than the radius in y"); vp_cut(); vp_assume(n1 && n2 && rx>=0 && rx<=400 && ry>=0 && ry<=400 && cx>=-8 && cx<=8 && cy>=-8 && cy<=8 && X>=-200 && X<=200 && Y>=-200 && Y<=200 && x==X && y==Y); }
	CqEwaFilter f(SqMatrix2D(a,b,b,d),CqVector2D(cx,cy),L); SqFilterSupport s=f.support(); vp_assert(x>=s.sx.start,"left of the support nothing has a weight"); vp_assert(x<s.sx.end,"right of the support nothing has a weight"); vp_assert(y>=s.sy.start,"above the support nothing has a weight"); vp_assert(y<s.sy.end,"below the support nothing has a weight");
}
extern "C" void stub_clampecc(SqMatrix2D&,F&,F,F){}
//@proof ewa_setup mode=real replace=".*clampEccentricity.*=>stub_clampecc"
PROOF(ewa_setup){ // the quadratic form belongs to the covariance of reconstruction, blur and pixel filter
	F p=vp_f32_in("p",-0.5f,0.5f),q=vp_f32_in("q",-0.5f,0.5f),r=vp_f32_in("r",-0.5f,0.5f),s=vp_f32_in("s",-0.5f,0.5f),cx=vp_f32_in("cx",0,1),cy=vp_f32_in("cy",0,1),bs=vp_f32_in("bs",0,0.5f),bt=vp_f32_in("bt",0,0.5f); F RS=16,RT=8; SqSamplePllgram g(CqVector2D(cx,cy),CqVector2D(p,q),CqVector2D(r,s)); SqMatrix2D blur=ewaBlurMatrix(bs,bt); vp_assert(vp_is_symbolic()?blur.a==0.25*bs*bs && blur.d==0.25*bt*bt && blur.b==0 && blur.c==0:near(blur.a,0.25*bs*bs,1e-5,1e-6) && near(blur.d,0.25*bt*bt,1e-5,1e-6),"the blur is an axis aligned variance");
	CqEwaFilterFactory e(g,RS,RT,blur,4,1e6f); vp_assert(near(e.m_filterCenter.x(),cx*RS-0.5,1e-5,vp_is_symbolic()?0:1e-4) && near(e.m_filterCenter.y(),cy*RT-0.5,1e-5,vp_is_symbolic()?0:1e-4),"pixel centres lie half a pixel inside the texture");
	const F v=1.3/(2*M_PI); double A=(v*((double)p*p+(double)r*r)+blur.a)*RS*RS+v, B=v*((double)p*q+(double)r*s)*RS*RT, D=(v*((double)q*q+(double)s*s)+blur.d)*RT*RT+v; SqMatrix2D& Q=e.m_quadForm; double t=vp_is_symbolic()?0:1e-2; const char* l="the quadratic form is half the inverse covariance"; if(vp_is_symbolic()){ vp_assert(2*(Q.a*A+Q.b*B)==1,l); vp_assert(2*(Q.c*B+Q.d*D)==1,l); vp_assert(Q.a*B+Q.b*D==0,l); vp_assert(Q.c*A+Q.d*B==0,l); } else vp_assert(near(2*(Q.a*A+Q.b*B),1,0,t) && near(2*(Q.c*B+Q.d*D),1,0,t) && near(2*(Q.a*B+Q.b*D),0,0,t*10) && near(2*(Q.c*A+Q.d*B),0,0,t*10),l); vp_reach("w");
}

//@proof ewa_clamp mode=real
PROOF(ewa_clamp){ // axis aligned regions: the wider axis is kept, the narrower is widened to the greatest allowed ratio
	F p=vp_f32_in("p",0,0.5f),s=vp_f32_in("s",0,0.5f),m=vp_f32_in("m",1,20); const F v=1.3/(2*M_PI); CqEwaFilterFactory e(SqSamplePllgram(CqVector2D(0,0),CqVector2D(p,0),CqVector2D(0,s)),16,16,ewaBlurMatrix(0,0),4,m); double A=v*(256.0*p*p+1), D=v*(256.0*s*s+1), lo=A<D?A:D, hi=A<D?D:A; if(!vp_is_symbolic() && near(m*m*lo,hi,0.01,0)) return; if((double)m*m*lo<hi) lo=hi/((double)m*m); double wa=A<D?lo:hi, wd=A<D?hi:lo; SqMatrix2D& Q=e.m_quadForm; F mw=e.minorAxisWidth();
	if(vp_is_symbolic()){ vp_assert(Q.a*wa*2==1,"width in s"); vp_assert(Q.d*wd*2==1,"width in t"); vp_assert(Q.b==0 && Q.c==0,"the ellipse keeps its axes"); vp_assert(mw>=0 && mw*mw==32*lo,"the minor axis"); } else { if(near(A,D,0.05,0)) return; vp_assert(near(Q.a*wa*2,1,0.02,0),"width in s"); vp_assert(near(Q.d*wd*2,1,0.02,0),"width in t"); vp_assert(near(Q.b,0,0,0.01) && near(Q.c,0,0,0.01),"the ellipse keeps its axes"); vp_assert(near(mw*mw,32*lo,0.01,0.01),"the minor axis"); } vp_reach("c");
}

// ---- mipmap levels -------------------------------------------------------------------------------------------------
struct NoTex { NoTex(const boost::shared_ptr<IqTiledTexInputFile>&,int){} int width() const { return 1; } int height() const { return 1; } };
extern "C" void stub_fill(void*,const void*){}
//@proof levels mode=fp shards=8 replace="_ZN5Aqsis13CqChannelList18addUnnamedChannelsENS_13EqChannelTypeEi=>stub_unnamed;_ZN5Aqsis26CqTextureSampleOptionsBase18fillFromFileHeaderERKNS_15CqTexFileHeaderE=>stub_fill;OSTREAM" bounded="base textures of up to 17 by 6 pixels"
PROOF(levels){
	int k=vp_pick("w",17), w=k+1, h=1+vp_pick("h",6); int ws[8],hs[8]; double cx[8],cy[8]; int n=1; ws[0]=w; hs[0]=h; cx[0]=cy[0]=0; while(ws[n-1]>1 || hs[n-1]>1){ ws[n]=(ws[n-1]+1)/2; hs[n]=(hs[n-1]+1)/2; cx[n]=cx[n-1]+(ws[n-1]%2?0:0.5*(1<<(n-1))); cy[n]=cy[n-1]+(hs[n-1]%2?0:0.5*(1<<(n-1))); ++n; }
	ws[n]=hs[n]=1; boost::shared_ptr<File> f(new File(w,h,4,4,1)); f->ws=ws; f->hs=hs; f->levels=n+vp_pick("extra",2); CqMipmap<NoTex> m(f); vp_assert(m.width0()==w && m.height0()==h,"the size of the base texture"); vp_assert(m.numLevels()==n,"levels beyond 1x1 are ignored");
	for(int i=0;i<n;++i){ SqLevelTrans t=m.levelTrans(i); vp_assert(t.xScale==1.0f/(1<<i) && t.yScale==1.0f/(1<<i),"each level halves the resolution"); vp_assert(t.xOffset==-(F)cx[i] && t.yOffset==-(F)cy[i],"level pixels are centred on the base pixels they were made from"); }
	if(n>1){ ws[n-1]=2; bool th=false; try { CqMipmap<NoTex> m2(f); } catch(XqBadTexture&){ th=true; } vp_assert(th,"levels of the wrong size are refused"); }
}

// ---- making mipmaps ------------------------------------------------------------------------------------------------
static F KW[64]; static int KN; static F KS[64],KT[64];
static RtFloat kern(RtFloat s,RtFloat t,RtFloat sw,RtFloat tw){ KS[KN]=s; KT[KN]=t; return KW[KN++]; }
//@proof kernel mode=real shards=8 bounded="filter widths 1 to 3.5"
PROOF(kernel){
	int k=vp_pick("case",24); bool zx=k&1,zy=k&2; F xw=1+0.5f*(k/4), yw=2; for(int i=0;i<64;++i) KW[i]=1+(i*7)%5; KW[0]=vp_f32_in("k0",1,8); KN=0; CqCachedFilter f(SqFilterInfo(kern,xw,yw),zx,zy,0.5f); int W=f.width(),H=f.height(); vp_assert(W%2==(zx?1:0) && H%2==(zy?1:0),"odd kernels include the centre, even kernels straddle it"); vp_assert(W>=xw-1 && W<=xw+2 && W>=2 && H>=1 && H<=4,"the kernel covers the filter width"); vp_assert(KN==W*H,"the filter is evaluated once per point"); double tot=0; for(int i=0;i<KN;++i) tot+=KW[i];
	f.setSupportTopLeft(-3,5); SqFilterSupport s=f.support(); vp_assert(s.sx.start==-3 && s.sx.end==-3+W && s.sy.start==5 && s.sy.end==5+H,"the support has the size of the kernel"); vp_assert(f.isNormalized(),"kernels are normalised");
	for(int j=0;j<H;++j) for(int i=0;i<W;++i){ vp_assert(vp_is_symbolic()?f(i-3,j+5)*tot==KW[j*W+i]:near(f(i-3,j+5),KW[j*W+i]/tot,1e-4,1e-5),"weights are normalised to a total of one"); vp_assert(KS[j*W+i]==0.5f*(i-(W-1)*0.5f) && KT[j*W+i]==0.5f*(j-(H-1)*0.5f),"the filter is evaluated at the distance from the centre, in pixels of the smaller image"); }
}
static RtFloat box(RtFloat,RtFloat,RtFloat,RtFloat){ return 1; }
static int clampi(int v,int n){ return v<0?0:v>=n?n-1:v; }
//@proof half mode=real shards=8 bounded="images of up to 4 by 3 pixels, box filter"
PROOF(half){
	int k=vp_pick("case",24), w=1+k%4, h=1+k/4%3, m=k/12?WrapMode_Periodic:WrapMode_Clamp; CqTextureBuffer<F> b(w,h,1); F px[4][3]; const char* n[12]={"p0","p1","p2","p3","p4","p5","p6","p7","p8","p9","pa","pb"}; for(int y=0;y<h;++y) for(int x=0;x<w;++x){ px[x][y]=vp_f32_in(n[y*4+x],0,1); b.setPixel(x,y,&px[x][y]); }
	boost::shared_ptr<CqTextureBuffer<F> > d=downsample(b,SqFilterInfo(box,2,2),SqWrapModes((EqWrapMode)m,(EqWrapMode)m)); vp_assert(d->width()==(w+1)/2 && d->height()==(h+1)/2 && d->numChannels()==1,"the next level has half the size, rounded up"); int fw=w%2?3:2, fh=h%2?3:2, ox=w%2?-1:0, oy=h%2?-1:0;
	for(int y=0;y<d->height();++y) for(int x=0;x<d->width();++x){ double sum=0; for(int j=0;j<fh;++j) for(int i=0;i<fw;++i){ int sx=2*x+ox+i, sy=2*y+oy+j; sum+=m==WrapMode_Periodic?px[mod(sx,w)][mod(sy,h)]:px[clampi(sx,w)][clampi(sy,h)]; } vp_assert(near((*d)(x,y)[0],sum/(fw*fh),0,1e-5),"each pixel is the weighted mean of the pixels around its position"); }
}
//@proof chain mode=fp bounded="images of up to 5 by 3 pixels"
PROOF(chain){ int w=1+vp_pick("w",5),h=1+vp_pick("h",3); boost::shared_ptr<CqTextureBuffer<F> > b(new CqTextureBuffer<F>(w,h,1)); F c=0.5f; for(int y=0;y<h;++y) for(int x=0;x<w;++x) b->setPixel(x,y,&c); CqDownsampleIterator<CqTextureBuffer<F> > i(b,SqFilterInfo(box,2,2),SqWrapModes(WrapMode_Clamp,WrapMode_Periodic)),end; int n=0; for(;i!=end;++i){ vp_assert((*i)->width()==w && (*i)->height()==h,"each level has half the size of the one before"); for(int y=0;y<h;++y) for(int x=0;x<w;++x) vp_assert(near((**i)(x,y)[0],0.5,0,1e-5),"an even texture stays even"); ++n; if(w==1 && h==1) break; w=(w+1)/2; h=(h+1)/2; } vp_assert(w==1 && h==1,"the chain goes down to one pixel"); ++i; vp_assert(!(i!=end),"and ends there"); }
