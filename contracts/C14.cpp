// C14: image channel data is converted, laid out, copied and composited faithfully.
//@flags -DAQSIS_TEX_EXPORTS -I/usr/include/OpenEXR -I/usr/include/Imath
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume integer channel scaling is proved over the reals (rounding of the float products is cross-checked natively)
#include "contract.h"
#include "libs/tex/buffers/imagechannel.cpp"
#include "libs/tex/buffers/mixedimagebuffer.cpp"
using namespace Aqsis;
typedef TqFloatConv F;

// ---- integer <-> float ---------------------------------------------------------------------------------------------
template<class T> struct Lim { static double lo(){ return (double)std::numeric_limits<T>::min(); } static double hi(){ return (double)std::numeric_limits<T>::max(); } };
// a source producing one given value everywhere
struct Src : IqImageChannelSource { F v[64]; mutable int w,h; Src():w(0),h(0){} virtual void requireSize(TqInt a,TqInt b) const { w=a; h=b; } virtual const F* getRow(TqInt r) const { return v+r*w; } };
template<class T> static T conv(F f){ T d[3]={5,5,5}; CqImageChannelTyped<T> c(SqChannelInfo("x",getChannelTypeEnum<T>()),(TqUint8*)(d+1),1,1,sizeof(T)); Src s; s.v[0]=f; c.copyFrom(s); vp_assert(d[0]==5 && d[2]==5,"only the channel's own storage is written"); return d[1]; }
template<class T> static F unconv(T t){ CqImageChannelTyped<T> c(SqChannelInfo("x",getChannelTypeEnum<T>()),(TqUint8*)&t,1,1,sizeof(T)); const IqImageChannelSource& s=c; s.requireSize(1,1); return s.getRow(0)[0]; }
template<class T> static void quant(){
	F f=vp_f32_near("f",-0.5f,1.5f); vp_assume(f==f); double R=Lim<T>::hi()-Lim<T>::lo(); T r=conv<T>(f); double d=(double)r;
	if(f<=0) vp_assert(d==Lim<T>::lo(),"values below zero give the minimum"); else if(f>=1) vp_assert(d==Lim<T>::hi(),"full intensity gives the maximum");
	else { double e=d-(f*R+Lim<T>::lo()); double t=vp_is_symbolic()?0.5:0.5001; if(f<0.5f){ vp_assert(e<=t,"values between are rounded to the nearest level"); vp_assert(e>=-t,"values between are rounded to the nearest level"); } else { vp_assert(e<=t,"values between are rounded to the nearest level"); vp_assert(e>=-t,"values between are rounded to the nearest level"); } } vp_reach("q");
}
//@proof quantise mode=real shards=6
PROOF(quantise){ switch(vp_pick("type",6)){ case 0: quant<TqUint8>(); break; case 1: quant<TqInt8>(); break; case 2: quant<TqUint16>(); break; case 3: quant<TqInt16>(); break; case 4: quant<TqUint32>(); break; default: quant<TqInt32>(); } }
template<class T> static void ends(){ vp_assert(conv<T>(1.0f)==std::numeric_limits<T>::max(),"white stays white"); vp_assert(conv<T>(0.0f)==std::numeric_limits<T>::min(),"black stays black"); vp_assert(conv<T>(7.5f)==std::numeric_limits<T>::max() && conv<T>(-3.0f)==std::numeric_limits<T>::min(),"out of range values are clamped"); vp_assert(unconv<T>(std::numeric_limits<T>::max())==1.0f && unconv<T>(std::numeric_limits<T>::min())==0.0f,"the extreme levels read as 0 and 1"); }
// exact machine arithmetic at the ends of the range, and all 8 bit values
//@proof extremes mode=fp
PROOF(extremes){ switch(vp_pick("type",6)){ case 0: ends<TqUint8>(); break; case 1: ends<TqInt8>(); break; case 2: ends<TqUint16>(); break; case 3: ends<TqInt16>(); break; case 4: ends<TqUint32>(); break; default: ends<TqInt32>(); } }
//@proof bytes mode=fp shards=4
PROOF(bytes){ int v=vp_pick("v",256); vp_assert(conv<TqUint8>(unconv<TqUint8>(v))==v,"every 8 bit level survives conversion to float and back"); TqInt8 s=(TqInt8)(v-128); vp_assert(conv<TqInt8>(unconv<TqInt8>(s))==s,"every signed 8 bit level survives conversion to float and back"); F f=unconv<TqUint8>(v); vp_assert(v==0 || f>unconv<TqUint8>(v-1),"levels are increasing"); vp_assert(f>=v/255.0f-1e-6f && f<=v/255.0f+1e-6f,"level v reads as v/255"); }
template<class T> static void level(){ T v=(T)vp_range("v",(int)Lim<T>::lo(),(int)Lim<T>::hi()); vp_assert(conv<T>(unconv<T>(v))==v,"every 16 bit level survives conversion to float and back"); }
//@proof words mode=real
PROOF(words){ if(vp_pick("t",2)) level<TqUint16>(); else level<TqInt16>(); }
//@proof floats mode=fp
PROOF(floats){ F f=vp_f32("f"); TqFloat r=conv<TqFloat>(f); vp_assert(vp_bits(r)==vp_bits(f) || f!=f,"float channels keep every value"); F g=unconv<TqFloat>(f); vp_assert(vp_bits(g)==vp_bits(f) || f!=f,"float channels read back every value"); }

// ---- channel lists -------------------------------------------------------------------------------------------------
static const EqChannelType TY[8]={Channel_Float32,Channel_Unsigned32,Channel_Signed32,Channel_Float16,Channel_Unsigned16,Channel_Signed16,Channel_Unsigned8,Channel_Signed8};
static const int SZ[8]={4,4,4,2,2,2,1,1}; static const char* NM[6]={"r","g","b","a","z","y"};
//@proof layout shards=8 bounded="lists of three channels (any types), four for the common type"
PROOF(layout){
	int a=vp_pick("a",8),b=vp_pick("b",8),c=vp_pick("c",8); CqChannelList l; vp_assert(l.numChannels()==0 && l.bytesPerPixel()==0 && l.sharedChannelType()==Channel_TypeUnknown,"an empty list");
	l.addChannel(SqChannelInfo("b",TY[a])); l.addChannel(SqChannelInfo("q",TY[b])); CqChannelList l2(l); l.addChannel(SqChannelInfo("r",TY[c]));
	vp_assert(l.numChannels()==3 && l.channelByteOffset(0)==0 && l.channelByteOffset(1)==SZ[a] && l.channelByteOffset(2)==SZ[a]+SZ[b] && l.bytesPerPixel()==SZ[a]+SZ[b]+SZ[c],"channels are packed one after another");
	vp_assert(l.sharedChannelType()==(a==b && b==c?TY[a]:Channel_TypeUnknown),"a common type is reported only if all channels have it");
	vp_assert(l.findChannelIndex("b")==0 && l.findChannelIndex("q")==1 && l.findChannelIndex("r")==2 && !l.hasChannel("g") && l.hasChannel("q") && l.hasRgbChannel() && !l.hasIntensityChannel(),"channels are found by name");
	vp_assert(!(l==l2) && l!=l2 && !l.channelTypesMatch(l2),"lists of different lengths differ"); l2.addChannel(SqChannelInfo("r",TY[(c+1)%8])); vp_assert(l!=l2 && !l.channelTypesMatch(l2),"lists of different types differ");
	l.reorderChannels(); vp_assert(l[0].name=="r" && l[1].name=="b" && l[2].name=="q" && l[0].type==TY[c] && l[1].type==TY[a] && l[2].type==TY[b],"reordering keeps each channel with its type"); vp_assert(l.channelByteOffset(0)==0 && l.channelByteOffset(1)==SZ[c] && l.channelByteOffset(2)==SZ[c]+SZ[a] && l.bytesPerPixel()==SZ[a]+SZ[b]+SZ[c],"reordered channels are packed one after another");
	CqChannelList l3; l3.addChannel(SqChannelInfo("x",TY[c])); l3.addChannel(SqChannelInfo("y",TY[a])); l3.addChannel(SqChannelInfo("z",TY[b])); vp_assert(l3!=l && l3.channelTypesMatch(l),"lists with other names differ, but their types match"); l.clear(); vp_assert(l.numChannels()==0 && l.bytesPerPixel()==0 && !l.hasRgbChannel(),"a cleared list is empty");
}
//@proof reorder bounded="up to five channels in every order" shards=8
PROOF(reorder){
	int k=vp_pick("perm",120), n=2+vp_pick("n",4); int p[5],u=0; { int q=k,f=24; for(int i=0;i<5;++i){ int d=q/f; q%=f; if(i<4) f/=(4-i); int j=0; for(;;++j) if(!(u>>j&1) && d--==0) break; u|=1<<j; p[i]=j; } }
	CqChannelList l; for(int i=0;i<n;++i) l.addChannel(SqChannelInfo(NM[p[i]],TY[p[i]])); l.reorderChannels(); vp_assert(l.numChannels()==n,"no channel is lost");
	int at=0,off=0; for(int w=0;w<5;++w){ int has=0; for(int i=0;i<n;++i) if(p[i]==w) has=1; if(!has) continue; vp_assert(l[at].name==NM[w] && l[at].type==TY[w],"channels come in the order r, g, b, a, others"); vp_assert(l.channelByteOffset(at)==off,"offsets follow the new order"); off+=SZ[w]; ++at; }
	vp_assert(l.bytesPerPixel()==off,"the size is unchanged");
}
//@proof formats
PROOF(formats){ int t=vp_pick("t",8); if(TY[t]!=Channel_Float16) vp_assert(chanFormatFromPkDspy(pkDspyFromChanFormat(TY[t]))==TY[t],"display formats and channel types correspond"); vp_assert(bytesPerPixel(TY[t])==SZ[t],"type sizes"); vp_assert(chanFormatFromPkDspy(PkDspyFloat32)==Channel_Float32 && chanFormatFromPkDspy(PkDspyUnsigned8)==Channel_Unsigned8 && chanFormatFromPkDspy(PkDspyUnsigned16)==Channel_Unsigned16 && chanFormatFromPkDspy(PkDspySigned8)==Channel_Signed8 && chanFormatFromPkDspy(PkDspySigned16)==Channel_Signed16 && chanFormatFromPkDspy(PkDspyUnsigned32)==Channel_Unsigned32 && chanFormatFromPkDspy(PkDspySigned32)==Channel_Signed32,"display format names"); vp_assert(getChannelTypeEnum<TqFloat>()==Channel_Float32 && getChannelTypeEnum<TqUint8>()==Channel_Unsigned8 && getChannelTypeEnum<TqInt8>()==Channel_Signed8 && getChannelTypeEnum<TqUint16>()==Channel_Unsigned16 && getChannelTypeEnum<TqInt16>()==Channel_Signed16 && getChannelTypeEnum<TqUint32>()==Channel_Unsigned32 && getChannelTypeEnum<TqInt32>()==Channel_Signed32,"channel types of C++ types"); }

// ---- copying and compositing regions -------------------------------------------------------------------------------
static CqChannelList mixed(bool swap,bool alpha){ CqChannelList l; if(swap){ l.addChannel(SqChannelInfo("g",Channel_Float32)); l.addChannel(SqChannelInfo("k",Channel_Unsigned8)); l.addChannel(SqChannelInfo("r",Channel_Float32)); } else { l.addChannel(SqChannelInfo("r",Channel_Float32)); l.addChannel(SqChannelInfo("k",Channel_Unsigned8)); l.addChannel(SqChannelInfo("g",Channel_Float32)); } if(alpha) l.addChannel(SqChannelInfo("a",Channel_Float32)); return l; }
static float& px(CqMixedImageBuffer& b,const char* n,int x,int y){ const CqChannelList& l=b.channelList(); return *(float*)(b.rawData()+(y*b.width()+x)*l.bytesPerPixel()+l.channelByteOffset(l.findChannelIndex(n))); }
static TqUint8& kx(CqMixedImageBuffer& b,int x,int y){ const CqChannelList& l=b.channelList(); return *(b.rawData()+(y*b.width()+x)*l.bytesPerPixel()+l.channelByteOffset(1)); }
static int dims(int i){ static const int d[4]={1,2,3,2}; return d[i]; }
struct Box { int sw,sh,dw,dh,ox,oy; };
// offsets on both sides of both edges in x, with a few sizes and offsets in y, and the transposed cases
static Box box(int i,int o){ Box b; int a=o-4; int y=(i*5+o*3)%7-3; switch(i){ case 0: b={2,2,3,2,a,y}; break; case 1: b={3,1,2,3,a,y}; break; case 2: b={1,2,3,3,a,y}; break; case 3: b={2,2,2,3,y,a}; break; case 4: b={1,3,3,2,y,a}; break; default: b={3,2,1,1,y,a}; } return b; }
static void fill(CqMixedImageBuffer& b,float base){ for(int y=0;y<b.height();++y) for(int x=0;x<b.width();++x){ px(b,"r",x,y)=base+y*8+x; px(b,"g",x,y)=base+100+y*8+x; kx(b,x,y)=(TqUint8)(base/16+y*8+x); if(b.channelList().hasChannel("a")) px(b,"a",x,y)=0; } }
//@proof copy_region mode=fp shards=8 bounded="source and destination of up to three by three pixels, offsets -4..4"
PROOF(copy_region){
	int q=vp_pick("case",6*9); int mode=vp_pick("mode",3); Box b=box(q/9,q%9); CqMixedImageBuffer s(mixed(mode==2,false),b.sw,b.sh), d(mixed(mode==1,false),b.dw,b.dh); vp_assert(d.width()==b.dw && d.height()==b.dh,"buffer size"); fill(s,1000); fill(d,2000);
	if(mode==0) d.copyFrom(s,b.ox,b.oy); else { TqChannelNameMap m; m["r"]="g"; m["k"]="k"; d.copyFrom(s,m,b.ox,b.oy); }
	for(int y=0;y<b.dh;++y) for(int x=0;x<b.dw;++x){ int u=x-b.ox,v=y-b.oy; bool in=u>=0 && u<b.sw && v>=0 && v<b.sh; float er=in?(mode==0?1000.f:1100.f)+v*8+u:2000.f+y*8+x, eg=in&&mode==0?1100.f+v*8+u:2100.f+y*8+x; int ek=in?(1000/16+v*8+u)&255:(2000/16+y*8+x)&255; vp_assert(px(d,"r",x,y)==er,"the overlap receives the source channel, the rest is kept"); vp_assert(px(d,"g",x,y)==eg,"channels not named are kept"); vp_assert(kx(d,x,y)==ek,"channels of other types are copied and kept likewise"); }
	for(int y=0;y<b.sh;++y) for(int x=0;x<b.sw;++x) vp_assert(px(s,"r",x,y)==1000+y*8+x && px(s,"g",x,y)==1100+y*8+x,"the source is unchanged");
}
//@proof composite mode=real shards=8 bounded="source and destination of up to three by three pixels, offsets -4..4; any colours and alphas"
PROOF(composite){
	int q=vp_pick("case",6*9); bool alpha=vp_pick("alpha",2); Box b=box(q/9,q%9); CqMixedImageBuffer s(mixed(false,alpha),b.sw,b.sh), d(mixed(true,false),b.dw,b.dh); fill(s,1000); fill(d,2000);
	int x0=b.ox>0?b.ox:0, y0=b.oy>0?b.oy:0; bool over=x0<b.dw && x0<b.ox+b.sw && y0<b.dh && y0<b.oy+b.sh; int sx=over?x0-b.ox:0, sy=over?y0-b.oy:0;
	float c=vp_f32_in("c",0,2),a=vp_f32_in("a",0,1),o=vp_f32_in("old",0,2); px(s,"r",sx,sy)=c; if(alpha) px(s,"a",sx,sy)=a; if(over) px(d,"r",x0,y0)=o;
	TqChannelNameMap m; m["r"]="r"; d.compositeOver(s,m,b.ox,b.oy,"a");
	for(int y=0;y<b.dh;++y) for(int x=0;x<b.dw;++x){ int u=x-b.ox,v=y-b.oy; bool in=u>=0 && u<b.sw && v>=0 && v<b.sh; float r=px(d,"r",x,y); if(over && x==x0 && y==y0) vp_assert(vp_close(r,alpha?c+(1-a)*o:c,1e-5),"source over destination: new = src + (1-alpha)*old"); else vp_assert(r==(in?(alpha?1000.f+v*8+u+2000.f+y*8+x:1000.f+v*8+u):2000.f+y*8+x),"other pixels composited or kept"); vp_assert(px(d,"g",x,y)==2100+y*8+x && kx(d,x,y)==((2000/16+y*8+x)&255),"other channels kept"); }
}
//@proof whole mode=fp shards=8 bounded="buffers of up to three by three pixels"
PROOF(whole){
	int wh=vp_pick("wh",9),w=1+wh%3,h=1+wh/3; CqMixedImageBuffer b(mixed(false,false),w,h); fill(b,0); TqFloat f=vp_pick("v",3)*0.5f; b.clearBuffer(f); for(int y=0;y<h;++y) for(int x=0;x<w;++x) vp_assert(px(b,"r",x,y)==f && px(b,"g",x,y)==f && kx(b,x,y)==(f==0?0:f==1?255:128),"clearing fills every pixel of every channel");
	int t=1+vp_pick("tile",2); b.initToCheckerboard(t); for(int y=0;y<h;++y) for(int x=0;x<w;++x) vp_assert(px(b,"g",x,y)==((x/t+y/t)%2?1.0f:0.5f),"checkerboard alternates");
	CqMixedImageBuffer c; c.resize(w,h,mixed(true,true)); vp_assert(c.width()==w && c.height()==h && c.channelList()==mixed(true,true),"resized"); fill(c,0); c.resize(h,w,mixed(false,false)); vp_assert(c.width()==h && c.height()==w && c.channelList()==mixed(false,false),"resized again"); fill(c,16); vp_assert(px(c,"r",h-1,w-1)==16+(w-1)*8+h-1,"all pixels of the new size are stored");
	CqMixedImageBuffer wrong(mixed(false,true),w,h); bool thrown=false; try { c.copyFrom(wrong); } catch(XqInternal&){ thrown=true; } vp_assert(thrown,"copying between different numbers of channels is refused"); try { c.channel("nonesuch"); vp_assert(false,"unknown channel names are refused"); } catch(XqInternal&){}
	boost::shared_ptr<CqImageChannel> ch=c.channel("g"); try { ch->requireSize(h+1,w); vp_assert(false,"a channel cannot change size"); } catch(XqInternal&){}
	boost::shared_ptr<CqImageChannel> gc=c.channel("g"); const IqImageChannelSource& src=*gc; int z=1+vp_pick("zoom",2); CqImageChannelZoom zm(src,z); zm.requireSize(h*z,w*z); for(int y=0;y<w*z;++y){ const F* r=zm.getRow(y); for(int x=0;x<h*z;++x) vp_assert(r[x]==px(c,"g",x/z,y/z),"zooming repeats each pixel"); }
}
