// C13: a micropolygon is hit by exactly the samples inside it, with the surface's depth and colour.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv -I/repo/libs/shadervm
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
//@assume screen coordinates, depths and colours are treated as real numbers (rounding is cross-checked natively)
#include "contract.h"
#include <new>
#include "shadervariable.h"
#include "libs/math/matrix.cpp"
#include "libs/math/color.cpp"
#include "libs/core/csgtree.cpp"
#include "libs/core/bound.cpp"
#include "libs/core/imagepixel.cpp"
#include "libs/core/micropolygon.cpp"
#include "libs/core/renderer.cpp"
namespace Aqsis { void gStats_IncI(TqInt){} void gStats_DecI(TqInt){} TqInt gStats_getI(TqInt){ return 0; } void gStats_setI(TqInt,TqInt){} TqFloat gStats_getF(TqInt){ return 0; } void gStats_setF(TqInt,TqFloat){}
TqFloat CqStats::m_floatVars[_Last_float]; TqInt CqStats::m_intVars[_Last_int]; }
using namespace Aqsis;

// a grid of points and colours of cu x cv micropolygons
struct Grid : CqMicroPolyGridBase {
	int cu,cv; CqShaderVariableVaryingPoint P; CqShaderVariableVaryingColor Ci,Oi; bool hasC;
	Grid(int cu,int cv):cu(cu),cv(cv),P("P"),Ci("Ci"),Oi("Oi"),hasC(true){ int n=(cu+1)*(cv+1); P.SetSize(n); Ci.SetSize(n); Oi.SetSize(n); }
	void Split(long,long,long,long){} void Shade(bool){} void TransferOutputVariables(){} void DeleteVariables(bool){} CqSurface* pSurface() const{ return 0; } const IqConstAttributesPtr pAttributes() const{ return IqConstAttributesPtr(); } bool usesCSG() const{ return false; } boost::shared_ptr<CqCSGTreeNode> pCSGNode() const{ return boost::shared_ptr<CqCSGTreeNode>(); }
	TqInt uGridRes() const{ return cu; } TqInt vGridRes() const{ return cv; } TqUint numMicroPolygons(TqInt a,TqInt b) const{ return a*b; } TqUint numShadingPoints(TqInt a,TqInt b) const{ return (a+1)*(b+1); } bool hasValidDerivatives() const{ return true; }
	IqShaderData* pVar(TqInt i){ return i==EnvVars_P?(IqShaderData*)&P:i==EnvVars_Ci&&hasC?(IqShaderData*)&Ci:i==EnvVars_Oi&&hasC?(IqShaderData*)&Oi:0; } IqShaderData* FindStandardVar(const char*){ return 0; } boost::shared_ptr<IqShaderExecEnv> pShaderExecEnv(){ return boost::shared_ptr<IqShaderExecEnv>(); }
};
struct MP : CqMicroPolygon { MP(CqMicroPolyGridBase* g,int i):CqMicroPolygon(g,i){} void* operator new(size_t,void* p){ return p; } };
struct V2 { float x,y; };
static float side(V2 a,V2 b,V2 p){ return (b.x-a.x)*(p.y-a.y)-(b.y-a.y)*(p.x-a.x); }
static V2 rp(const char* n){ V2 v; v.x=vp_f32_in(n,-16,16); v.y=vp_f32_in(n,-16,16); return v; }
static void set(Grid& g,int i,V2 p,float z){ g.P.SetPoint(CqVector3D(p.x,p.y,z),i); }
static const float eps=1e-3f;
static bool apart(V2 a,V2 b){ float dx=a.x-b.x,dy=a.y-b.y; return dx*dx+dy*dy>=1e-4f; }
static bool sample(CqMicroPolygon& m,V2 p,float& D,CqVector2D& uv,int start){ CqHitTestCache c; m.CacheHitTestValues(c,false); if(start>=0) c.m_LastFailedEdge=start; SqSampleData s; s.position=CqVector2D(p.x,p.y); return m.Sample(c,s,D,uv,0); }
// orientation w: +1 or -1; corners A,B,C(below A),D(below B): ring A,B,D,C
static void convex(V2 A,V2 B,V2 C,V2 D,int w){ float m=vp_is_symbolic()?0:1e-2f; V2 r[4]={A,B,D,C}; for(int i=0;i<4;++i){ vp_assume(w*side(r[i],r[(i+1)&3],r[(i+2)&3])>m); vp_assume(apart(r[i],r[(i+1)&3])); } }
static void inside4(V2 A,V2 B,V2 C,V2 D,int w,V2 p,bool& in,bool& out){ float m=vp_is_symbolic()?0:1e-2f; V2 r[4]={A,B,D,C}; in=true; out=false; for(int i=0;i<4;++i){ float s=w*side(r[i],r[(i+1)&3],p); in=in&(s>m); out=out|(s<-m); } }
//@proof hit_convex mode=real shards=8
PROOF(hit_convex){
	int k0=vp_pick("k0",16), w=(k0&1)*2-1, e=k0>>1&3, idx=k0>>3; Grid g(2,1); V2 A=rp("A"),B=rp("B"),C=rp("C"),D=rp("D"),p=rp("p"); convex(A,B,C,D,w);
	for(int i=0;i<6;++i) set(g,i,rp("o"),1); set(g,idx,A,1); set(g,idx+1,B,1); set(g,idx+3,C,1); set(g,idx+4,D,1);
	char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,idx); m.Initialise(); float z; CqVector2D uv; bool hit=sample(m,p,z,uv,e); bool in,out; inside4(A,B,C,D,w,p,in,out);
	if(in) vp_assert(hit,"a sample inside the micropolygon hits it"); if(out) vp_assert(!hit,"a sample outside the micropolygon misses it");
}
// the four ways two neighbouring corners can coincide: the micropolygon is then a triangle
//@proof hit_triangle mode=real shards=8
PROOF(hit_triangle){
	int k0=vp_pick("k0",32), w=(k0&1)*2-1, k=k0>>1&3, e=k0>>3; Grid g(1,1); V2 T[3]={rp("t"),rp("t"),rp("t")},p=rp("p"); float M=vp_is_symbolic()?0:1e-2f; vp_assume(w*side(T[0],T[1],T[2])>M); for(int i=0;i<3;++i) vp_assume(apart(T[i],T[(i+1)%3]));
	// ring of corners A,B,D,C with corner k repeated
	V2 r[4]; int j=0; for(int i=0;i<4;++i){ r[i]=T[j]; if(i!=k) ++j; if(j>2) j=2; } if(k==3) r[3]=r[0]=T[0],r[1]=T[1],r[2]=T[2];
	set(g,0,r[0],1); set(g,1,r[1],1); set(g,3,r[2],1); set(g,2,r[3],1);
	char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,0); m.Initialise(); float z; CqVector2D uv; bool hit; { CqHitTestCache c; m.CacheHitTestValues(c,false); c.m_LastFailedEdge=e; hit=m.fContains(c,CqVector2D(p.x,p.y),z,uv,0); }
	bool in=true,out=false; for(int i=0;i<3;++i){ float s=w*side(T[i],T[(i+1)%3],p); in=in&(s>M); out=out|(s<-M); }
	if(in) vp_assert(hit,"a sample inside a triangular micropolygon hits it"); if(out) vp_assert(!hit,"a sample outside a triangular micropolygon misses it");
}
// neighbours in u and v: a point of the shared edge is covered exactly once
//@proof shared_edge mode=real shards=8
PROOF(shared_edge){
	int k0=vp_pick("k0",16), w=(k0&1)*2-1, v=k0>>1&1, e=k0>>2; Grid g(v?1:2,v?2:1); V2 c[6]; for(int i=0;i<6;++i){ c[i]=rp("c"); set(g,i,c[i],1); }
	int q[2][4]={{0,1,v?2:3,v?3:4},{v?2:1,v?3:2,v?4:4,v?5:5}}; for(int k=0;k<2;++k) convex(c[q[k][0]],c[q[k][1]],c[q[k][2]],c[q[k][3]],w);
	// p on the line of the shared edge, strictly inside the other edges of both (each side condition is stated for both directions of the edge)
	V2 p=rp("p"); for(int k=0;k<2;++k){ int ring[4]={q[k][0],q[k][1],q[k][3],q[k][2]}; for(int i=0;i<4;++i){ V2 a=c[ring[i]],b=c[ring[(i+1)&3]]; bool shared= v?(k==0?i==2:i==0):(k==0?i==1:i==3); float s=w*side(a,b,p),r=w*side(b,a,p); if(shared){ vp_assume(s==0); vp_assume(r==0); } else { vp_assume(s>0); vp_assume(r<0); } } }
	if(!vp_is_symbolic()) return; // rounding of the edge equation is not modelled natively
	bool h[2]; for(int k=0;k<2;++k){ char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,q[k][0]); m.Initialise(); float z; CqVector2D uv; h[k]=sample(m,p,z,uv,k==0?e:(e*3+1)&3); }
	vp_assert(h[0]||h[1],"no crack between neighbouring micropolygons"); vp_assert(!(h[0]&&h[1]),"no double hit between neighbouring micropolygons");
}
// depth and parametric position of a hit on a parallelogram
//@proof depth mode=real nonzero=assume
PROOF(depth){
	Grid g(1,1); V2 A=rp("A"),E=rp("E"),F=rp("F"); float det=E.x*F.y-E.y*F.x; vp_assume((det>0.5f)|(det<-0.5f)); float z[4]; for(int i=0;i<4;++i) z[i]=vp_f32_in("z",1,100); V2 B={A.x+E.x,A.y+E.y},C={A.x+F.x,A.y+F.y},D={B.x+F.x,B.y+F.y};
	float u=vp_f32_in("u",0.05f,0.95f),v=vp_f32_in("v",0.05f,0.95f); V2 p={A.x+u*E.x+v*F.x,A.y+u*E.y+v*F.y}; set(g,0,A,z[0]); set(g,1,B,z[1]); set(g,2,C,z[2]); set(g,3,D,z[3]);
	char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,0); m.Initialise(); float d; CqVector2D uv; CqHitTestCache c; m.CacheHitTestValues(c,false); uv=c.xyToUV(CqVector2D(p.x,p.y)); float T=1e-3f;
	if(vp_is_symbolic()){ vp_assert(uv.x()==u,"u of the hit"); vp_assert(uv.y()==v,"v of the hit"); } else vp_assert(vp_close(uv.x(),u,5e-3)&&vp_close(uv.y(),v,5e-3),"position of the hit");
	CqVector2D w(vp_f32_in("wu",0,1),vp_f32_in("wv",0,1)); float Z=(1-w.y())*((1-w.x())*c.z[0]+w.x()*c.z[1])+w.y()*((1-w.x())*c.z[2]+w.x()*c.z[3]); vp_assert((c.z[0]==z[0])&(c.z[1]==z[1])&(c.z[2]==z[2])&(c.z[3]==z[3]),"corner depths are those of the corners");
	float bl=bilerp(c.z[0],c.z[1],c.z[2],c.z[3],w); vp_assert(vp_is_symbolic()?bl==Z:vp_close(bl,Z,1e-4),"depth is interpolated bilinearly");
}
//@proof bound mode=real
PROOF(bound){ Grid g(3,2); int idx=vp_pick("i",6); idx+=idx/3; CqVector3D v[12]; for(int i=0;i<12;++i){ v[i]=CqVector3D(vp_f32_in("p",-9,9),vp_f32_in("p",-9,9),vp_f32_in("p",-9,9)); g.P.SetPoint(v[i],i); } char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,idx); m.CalculateBound(); CqBound b=m.GetBound(); int k[4]={idx,idx+1,idx+4,idx+5}; bool ok=true; for(int i=0;i<4;++i){ CqVector3D q=v[k[i]]; ok=ok&(q.x()>=b.vecMin().x())&(q.x()<=b.vecMax().x())&(q.y()>=b.vecMin().y())&(q.y()<=b.vecMax().y())&(q.z()>=b.vecMin().z())&(q.z()<=b.vecMax().z()); } vp_assert(ok,"the bound contains the four corners"); CqVector3D P[4]; m.GetVertices(P); vp_assert(P[0]==v[k[0]]&&P[1]==v[k[1]]&&P[2]==v[k[2]]&&P[3]==v[k[3]],"corners of the micropolygon"); }
//@proof colour mode=real
PROOF(colour){
	Grid g(2,2); int idx=vp_pick("i",4); idx+=idx/2; float c[9][3],o[9][3]; for(int i=0;i<9;++i){ for(int k=0;k<3;++k){ c[i][k]=vp_f32_in("c",0,2); o[i][k]=vp_f32_in("o",0,1.5f); } g.Ci.SetColor(CqColor(c[i][0],c[i][1],c[i][2]),i); g.Oi.SetColor(CqColor(o[i][0],o[i][1],o[i][2]),i); } bool has=vp_pick("has",2); g.hasC=has;
	char mem[sizeof(MP)] __attribute__((aligned(16))); MP& m=*new((void*)mem) MP(&g,idx); SqMpgSampleInfo s; s.smoothInterpolation=vp_pick("smooth",2); m.CacheOutputInterpCoeffs(s); CqVector2D uv(vp_f32_in("u",0,1),vp_f32_in("v",0,1)); CqColor C,O; m.InterpolateOutputs(s,uv,C,O); int q[4]={idx,idx+1,idx+3,idx+4};
	bool opaque=true; for(int i=0;i<(s.smoothInterpolation?4:1);++i) for(int k=0;k<3;++k) opaque=opaque&(!has|(o[q[i]][k]>=1)); vp_assert(s.isOpaque==opaque,"opaque exactly when every corner used is opaque in every channel");
	for(int k=0;k<3;++k){ float ec=1,eo=1; if(has){ if(s.smoothInterpolation){ float U=uv.x(),V=uv.y(); ec=(1-V)*((1-U)*c[q[0]][k]+U*c[q[1]][k])+V*((1-U)*c[q[2]][k]+U*c[q[3]][k]); eo=(1-V)*((1-U)*o[q[0]][k]+U*o[q[1]][k])+V*((1-U)*o[q[2]][k]+U*o[q[3]][k]); } else { ec=c[idx][k]; eo=o[idx][k]; } } if(vp_is_symbolic()){ vp_assert(C[k]==ec,"colour is interpolated between the corners"); vp_assert(O[k]==eo,"opacity is interpolated between the corners"); } else vp_assert(vp_close(C[k],ec,1e-4)&&vp_close(O[k],eo,1e-4),"colour and opacity are interpolated between the corners"); }
}
// ---- motion blur and depth of field -------------------------------------------------------------------------------
static const float mtimes[][4]={{2,0,1},{3,0,1,3},{2,1,3}}; // number of keys, key times
static const float shapes[4][4][2]={{{0,0},{4,0},{0,4},{4,4}},{{1,0},{5,2},{-1,3},{2,5}},{{0,0},{6,1},{1,1},{5,3}},{{0,3},{2,0},{2,5},{7,2}}};
// corners of a convex polygon X at time t; before and after it is anywhere
//@proof moving_hit mode=real shards=8 bounded="four shapes of micropolygon and eight placements of the sample time among the keys; every motion and every sample position"
PROOF(moving_hit){
	static const struct{ int tab; float t; int key; float f; } cs[]={{0,0.25f,0,0.25f},{0,-1,0,0},{0,2,1,0},{1,0.5f,0,0.5f},{1,1,1,0},{1,1.5f,1,0.25f},{1,3,2,0},{2,2.5f,0,0.75f}}; int k0=vp_pick("k0",32); auto c=cs[k0&7]; int n=mtimes[c.tab][0],sh=k0>>3,w=(k0&1)?1:-1;
	V2 X[4],p=rp("p"); for(int i=0;i<4;++i){ X[i].x=shapes[sh][i][w<0]; X[i].y=shapes[sh][i][w>0]; } float z[4]; for(int i=0;i<4;++i) z[i]=vp_f32_in("z",1,100); Grid g(1,1);
	static const float sq[4][2]={{0,0},{1,0},{0,1},{1,1}}; char mem[sizeof(CqMicroPolygonMotion)] __attribute__((aligned(16))); memset(mem,0,sizeof mem); CqMicroPolygonMotion& m=*::new((void*)mem) CqMicroPolygonMotion(&g,0);
	CqVector3D prev[4]; for(int k=0;k<n;++k){ CqVector3D q[4]; V2 e=rp("e"); for(int i=0;i<4;++i){ q[i]=CqVector3D(sq[i][w<0]+e.x,sq[i][w>0]+e.y,2+k+i); if(k==c.key && c.f==0) q[i]=CqVector3D(X[i].x,X[i].y,z[i]); else if(k==c.key+1 && c.f!=0) q[i]=CqVector3D((X[i].x-(1-c.f)*prev[i].x())/c.f,(X[i].y-(1-c.f)*prev[i].y())/c.f,(z[i]-(1-c.f)*prev[i].z())/c.f); if(k==0) g.P.SetPoint(q[i],i); } m.AppendKey(q[0],q[1],q[2],q[3],mtimes[c.tab][1+k]); for(int i=0;i<4;++i) prev[i]=q[i]; }
	m.Initialise(); CqHitTestCache h; m.CacheHitTestValues(h,false); SqSampleData s; s.position=CqVector2D(p.x,p.y); float D; CqVector2D uv; bool hit=m.Sample(h,s,D,uv,c.t,false); bool in,out; inside4(X[0],X[1],X[2],X[3],w,p,in,out); vp_assert(m.IsMoving() && m.cKeys()==n,"keys");
	if(in) vp_assert(hit,"a sample inside the moving micropolygon at its time hits it"); if(out) vp_assert(!hit,"a sample outside the moving micropolygon at its time misses it");
	if(hit){ bool zs=true; for(int i=0;i<4;++i) zs=zs&(vp_is_symbolic()?h.z[i]==z[i]:vp_close(h.z[i],z[i],1e-3f*(1+z[i]))); vp_assert(zs,"the corner depths are those of the sample's time"); }
}
static char g_rend[sizeof(CqRenderer)] __attribute__((aligned(16)));
static CqRenderer& lens(){ CqRenderer& r=*(CqRenderer*)g_rend; pCurrRenderer=&r; r.m_UsingDepthOfField=true; r.m_DofMultiplier=4; r.m_OneOverFocalDistance=0.25f; r.m_DepthOfFieldScale=CqVector2D(1,0.5f); return r; }
static float cocX(float z){ float v=4*(1/z-0.25f); return v<0?-v:v; }
//@proof defocused_hit mode=real shards=8 bounded="four shapes of micropolygon, four depths; every point of the lens and every sample position"
PROOF(defocused_hit){
	lens(); static const float zz[4][4]={{2,2,2,2},{1,2,2,4},{8,8,4,16},{2,8,4,8}}; int k0=vp_pick("k0",32),w=(k0&1)*2-1,mv=k0>>1&1,sh=k0>>3; const float* z=zz[(k0>>2&1)+2*(sh&1)]; V2 X[4],p=rp("p"),off; for(int i=0;i<4;++i){ X[i].x=4*shapes[sh][i][w<0]-8; X[i].y=4*shapes[sh][i][w>0]-8; } off.x=vp_f32_in("off",-1,1); off.y=vp_f32_in("off",-1,1);
	Grid g(1,1); CqVector3D q[4]; for(int i=0;i<4;++i){ float c=cocX(z[i]); q[i]=CqVector3D(X[i].x+c*off.x,X[i].y+0.5f*c*off.y,z[i]); g.P.SetPoint(q[i],i); }
	char mem[sizeof(CqMicroPolygonMotion)] __attribute__((aligned(16))); memset(mem,0,sizeof mem); CqMicroPolygon* m; if(mv){ CqMicroPolygonMotion* mm=::new((void*)mem) CqMicroPolygonMotion(&g,0); mm->AppendKey(q[0],q[1],q[2],q[3],0); mm->AppendKey(CqVector3D(9,9,1),CqVector3D(9,9,1),CqVector3D(9,9,1),CqVector3D(9,9,16),1); m=mm; } else m=new((void*)mem) MP(&g,0);
	m->Initialise(); CqHitTestCache h; m->CacheHitTestValues(h,true); SqSampleData s; s.position=CqVector2D(p.x,p.y); s.dofOffset=CqVector2D(off.x,off.y); float D; CqVector2D uv; bool hit=m->Sample(h,s,D,uv,0,true); bool in,out; inside4(X[0],X[1],X[2],X[3],w,p,in,out);
	if(in) vp_assert(hit,"a sample inside the micropolygon as seen from its point of the lens hits it"); if(out) vp_assert(!hit,"a sample outside it misses it");
}
