// C12: constructive solid geometry keeps exactly the surfaces of the combined solid.
//@flags -I/repo/libs/core -I/repo/libs/core/api -I/repo/libs/core/ddmanager -I/repo/libs/core/geometry -I/repo/libs/core/raytrace -I/repo/libs/core/texturing_old -I/repo/libs/shadervm/shaderexecenv
//@libs -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all
#include "contract.h"
#include <new>
#include "libs/math/color.cpp"
#include "libs/core/csgtree.cpp"
#include "libs/core/imagepixel.cpp"
namespace Aqsis { CqRenderer* pCurrRenderer=0; }
using namespace Aqsis;
typedef boost::shared_ptr<CqCSGTreeNode> Node;
static Node mk(const char* t){ CqString s(t); return CqCSGTreeNode::CreateNode(s); }
static const char* opn[]={"union","intersection","difference"};
// specification of the operators on the in/out states of the operands
static bool ev(int op,const bool* s,int n){ bool any=false,all=true,rest=false; for(int i=0;i<n;++i){ any=any|s[i]; all=all&s[i]; if(i) rest=rest|s[i]; } return op==0?any:op==1?all:(s[0]&!rest); }
// any operator, any operand states
//@proof evaluate bounded="one to six operands"
PROOF(evaluate){ int op=vp_pick("op",3), n=1+vp_pick("n",6); Node k=mk(opn[op]); std::vector<bool> v(n); bool s[6]; for(int i=0;i<n;++i){ s[i]=vp_bool("s"); v[i]=s[i]; } vp_assert(k->EvaluateState(v)==ev(op,s,n),"inside the combined solid exactly when the operator says so"); }
struct Tree { std::vector<Node> nodes; Node prim[4]; int shape,o1,o2,np; };
// shapes: 0 op(A,B)  1 op(A,B,C)  2 op1(op2(A,B),C)  3 op1(A,op2(B,C))  4 op1(op2(A),op2(B,C))  5 a primitive alone
static void build(Tree& t,int shape,int o1,int o2){
	t.shape=shape; t.o1=o1; t.o2=o2; t.np= shape==0?2:shape==5?1:3; for(int i=0;i<3;++i) t.prim[i]=mk("primitive"); if(shape==5) return;
	Node r=mk(opn[o1]); t.nodes.push_back(r); Node a,b; if(shape>=2){ a=mk(opn[o2]); t.nodes.push_back(a); } if(shape==4){ b=mk(opn[o2]); t.nodes.push_back(b); }
	switch(shape){ case 0: r->AddChild(t.prim[0]); r->AddChild(t.prim[1]); break; case 1: for(int i=0;i<3;++i) r->AddChild(t.prim[i]); break; case 2: r->AddChild(a); a->AddChild(t.prim[0]); a->AddChild(t.prim[1]); r->AddChild(t.prim[2]); break;
	case 3: r->AddChild(t.prim[0]); r->AddChild(a); a->AddChild(t.prim[1]); a->AddChild(t.prim[2]); break; default: r->AddChild(a); r->AddChild(b); a->AddChild(t.prim[0]); b->AddChild(t.prim[1]); b->AddChild(t.prim[2]); } }
static bool in(const Tree& t,const bool* s){ bool x[2]; switch(t.shape){ case 0: return ev(t.o1,s,2); case 1: return ev(t.o1,s,3); case 2: x[0]=ev(t.o2,s,2); x[1]=s[2]; return ev(t.o1,x,2); case 3: x[0]=s[0]; x[1]=ev(t.o2,s+1,2); return ev(t.o1,x,2); case 4: x[0]=ev(t.o2,s,1); x[1]=ev(t.o2,s+1,2); return ev(t.o1,x,2); default: return s[0]; } }
// walls of the solids along a ray that starts outside all of them, each wall toggles its solid
static void walls(int N,bool all){
	int k0=vp_pick("k0",24), shape=k0/4, w0=k0%4-1; int o1=vp_pick("o1",shape==5?1:3), o2=shape<2||shape==5?0:all?vp_pick("o2",3):(o1+(shape==3?2:1))%3; Tree t; build(t,shape,o1,o2); int np=t.np; if(w0>=np) return; bool nested=shape>=2&&shape<5; if(!all && nested && w0<0) return; int id[8]; bool st[3]={0,0,0}; bool keep[8]; bool cur=false; int kept=0,first=-1;
	std::vector<SqImageSample> v; for(int i=0;i<N;++i){ id[i]= i==0?w0: nested&&!all&&i==N-1? vp_pick("wall",np) : vp_pick("wall",np+1)-1; SqImageSample q; q.index=i; q.flags=4; if(id[i]>=0){ q.csgNode=t.prim[id[i]]; if(first<0) first=i; st[id[i]]^=true; bool now=in(t,st); keep[i]=shape==5||now!=cur; cur=now; } else keep[i]=true; kept+=keep[i]; v.push_back(q); }
	if(first<0) return; Node start=v[first].csgNode; start->ProcessTree(v); vp_reach("csg"); vp_assert((int)v.size()==kept,"the number of surfaces kept is the number of changes of the combined solid"); if((int)v.size()!=kept) return;
	for(int i=0,j=0;i<N;++i) if(keep[i]){ vp_assert(v[j].index==i && v[j].flags==4,"exactly the walls where the combined solid changes are kept, in order"); vp_assert(!v[j].csgNode,"and are done with"); ++j; }
}
//@proof walls bounded="trees of up to three solids (all operators, two levels), four walls in any order, not all operator pairs" shards=8
PROOF(walls){ walls(4,false); }
//@proof walls_more tier=thorough budget=3000 bounded="trees of up to three solids (all operators, two levels), five walls in any order" shards=8
PROOF(walls_more){ walls(5,true); }
// through the compositing of a pixel sample: two independent CSG trees and a surface without CSG; opaque hits
//@proof pixel bounded="two CSG trees, up to three hits each, in every interleaving by depth, three arrival orders" shards=4
PROOF(pixel){
	SqImageSample::sampleSize=9; Tree t[2]; int w0=vp_pick("w0",4),oa=vp_pick("oa",3); build(t[0],0,oa,0); build(t[1],5,0,0); int N=4; int id[4]; bool st[2]={0,0}; bool cur=false; int nearest=-1; int order=oa; CqImagePixel px(1,1); bool any=false;
	float z[4]; int owner[4]; for(int i=0;i<N;++i){ owner[i]=i?vp_pick("wall",4):w0; z[i]=1+i; bool keep=true; if(owner[i]<2){ any=true; st[owner[i]]^=true; bool now=in(t[0],st); keep=now!=cur; cur=now; } if(keep && nearest<0) nearest=i; }
	for(int k=0;k<N;++k){ int i= order==0?k:order==1?N-1-k:(k+2)%N; px.Values(0).push_back(SqImageSample()); SqImageSample& q=px.Values(0).back(); px.allocateHitData(q); float* d=px.sampleHitData(q); for(int c=0;c<9;++c) d[c]=1; d[0]=10+i; d[6]=z[i]; q.flags=0; if(owner[i]<2) q.csgNode=t[0].prim[owner[i]]; else if(owner[i]==2) q.csgNode=t[1].prim[0]; }
	px.Combine(Filter_Min,CqColor(1,1,1)); bool hit=px.occludingHit(0).flags&SqImageSample::Flag_Valid; vp_assert(hit==(nearest>=0),"a pixel sample is hit exactly when the combined solid has a surface there"); if(hit) vp_assert(px.sampleHitData(px.occludingHit(0))[0]==10+nearest,"the nearest kept surface shows");
}
