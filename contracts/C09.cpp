// C09: transformation algebra (CqMatrix, SqMatrix2D, CqVector3D/4D) over the reals.
//@flags -I/repo/libs/math
//@default mode=real
//@assume floating point arithmetic is treated as real arithmetic in this file (rounding is cross-checked natively with a tolerance)
#include "contract.h"
#include "libs/math/matrix.cpp"
#include <aqsis/math/matrix2d.h>
using namespace Aqsis;
static const float TOL=2e-3f;
static float rf(const char* n){ return vp_f32_in(n,-8,8); }
struct M { float e[4][4]; };
static M symM(const char* n){ M m; for(int i=0;i<4;++i) for(int j=0;j<4;++j) m.e[i][j]=rf(n); return m; }
static M identM(){ M m; for(int i=0;i<4;++i) for(int j=0;j<4;++j) m.e[i][j]=i==j; return m; }
// every way a matrix with these elements can be represented: plain, or flagged identity
static CqMatrix mk(const char* n, M& m){ if(vp_pick("kind",2)){ m=identM(); return CqMatrix(); } m=symM(n); return CqMatrix(m.e); }
static M mul(const M& a,const M& b){ M r; for(int i=0;i<4;++i) for(int j=0;j<4;++j){ float s=0; for(int k=0;k<4;++k) s+=a.e[i][k]*b.e[k][j]; r.e[i][j]=s; } return r; }
static void same(const CqMatrix& a,const M& m,const char* l,float tol=TOL){ for(int i=0;i<4;++i) for(int j=0;j<4;++j) vp_assert(vp_close(a.Element(i,j),m.e[i][j],tol),l); 
	if(a.fIdentity()) for(int i=0;i<4;++i) for(int j=0;j<4;++j) vp_assert(vp_close(m.e[i][j],i==j,tol),"a matrix flagged identity is the identity"); }
static CqVector4D app(const M& m,const CqVector4D& v){ float r[4]; for(int j=0;j<4;++j) r[j]=v.x()*m.e[0][j]+v.y()*m.e[1][j]+v.z()*m.e[2][j]+v.h()*m.e[3][j]; return CqVector4D(r[0],r[1],r[2],r[3]); }
static bool close4(const CqVector4D& a,const CqVector4D& b){ return vp_close(a.x(),b.x(),TOL)&vp_close(a.y(),b.y(),TOL)&vp_close(a.z(),b.z(),TOL)&vp_close(a.h(),b.h(),TOL); }

// points are row vectors: (A*B) applies B first, then A
PROOF(product){
	M a,b; CqMatrix A=mk("a",a), B=mk("b",b); 
	same(A*B,mul(b,a),"A*B is the composition applying B first");
	CqMatrix C=A; C.PreMultiply(B); same(C,mul(a,b),"A.PreMultiply(B) is the composition applying A first");
	CqMatrix D=A; D*=B; same(D,mul(b,a),"A*=B is the composition applying B first"); 
	same(A,a,"operands unchanged"); same(B,b,"operands unchanged");
}
PROOF(self_product){ M a; CqMatrix A=mk("a",a); CqMatrix B=A; B*=B; same(B,mul(a,a),"A*=A squares"); CqMatrix C=A; C.PreMultiply(C); same(C,mul(a,a),"A.PreMultiply(A) squares"); }
PROOF(apply4){
	M a; CqMatrix A=mk("a",a); CqVector4D v(rf("x"),rf("y"),rf("z"),rf("h"));
	vp_assert(close4(A*v,app(a,v)),"A*v transforms the homogeneous row vector");
	CqVector4D p=A.PreMultiply(v); float r[4]; float q[4]={v.x(),v.y(),v.z(),v.h()}; for(int i=0;i<4;++i){ r[i]=0; for(int j=0;j<4;++j) r[i]+=a.e[i][j]*q[j]; }
	vp_assert(close4(p,CqVector4D(r[0],r[1],r[2],r[3])),"v*A is the transposed transformation"); vp_assert(close4(v*A,p),"v*A");
}
PROOF(apply3){
	M a; CqMatrix A=mk("a",a); CqVector3D v(rf("x"),rf("y"),rf("z")); CqVector4D r=app(a,CqVector4D(v.x(),v.y(),v.z(),1)); float h=r.h(); vp_assume(h>0.05f||h<-0.05f);
	CqVector3D w=A*v; vp_assert(vp_close(w.x()*h,r.x(),TOL)&vp_close(w.y()*h,r.y(),TOL)&vp_close(w.z()*h,r.z(),TOL),"points are transformed and divided by the homogeneous coordinate");
}
// composing then applying equals applying in turn (perspective matrices included)
PROOF(compose_apply){
	M a,b; CqMatrix A=mk("a",a), B=mk("b",b); CqVector4D v(rf("x"),rf("y"),rf("z"),rf("h"));
	vp_assert(close4((A*B)*v,A*(B*v)),"(A*B)v == A(Bv)");
}
PROOF(sums){
	M a,b; CqMatrix A=mk("a",a), B=mk("b",b); M s,d; for(int i=0;i<4;++i) for(int j=0;j<4;++j){ s.e[i][j]=a.e[i][j]+b.e[i][j]; d.e[i][j]=a.e[i][j]-b.e[i][j]; }
	same(A+B,s,"sum"); same(A-B,d,"difference"); CqMatrix C=A; C+=B; same(C,s,"+="); C=A; C-=B; same(C,d,"-=");
}
PROOF(scalar){
	M a; CqMatrix A=mk("a",a); float S=rf("S"); M k=identM(); k.e[0][0]=k.e[1][1]=k.e[2][2]=S; same(A*S,mul(a,k),"A*S scales space uniformly"); CqMatrix B=A; B*=S; same(B,mul(a,k),"A*=S scales space uniformly");
	M r; for(int i=0;i<4;++i) for(int j=0;j<4;++j) r.e[i][j]=S*a.e[i][j]; same(S*A,r,"S*A scales every element");
}
PROOF(transpose){ M a; CqMatrix A=mk("a",a); M t; for(int i=0;i<4;++i) for(int j=0;j<4;++j) t.e[i][j]=a.e[j][i]; same(A.Transpose(),t,"transpose"); }
PROOF(construct){
	float x=rf("x"),y=rf("y"),z=rf("z"); M s=identM(); s.e[0][0]=x; s.e[1][1]=y; s.e[2][2]=z; same(CqMatrix(x,y,z),s,"scale matrix");
	M t=identM(); t.e[3][0]=x; t.e[3][1]=y; t.e[3][2]=z; same(CqMatrix(CqVector3D(x,y,z)),t,"translation matrix");
	M f=identM(); for(int i=0;i<4;++i) f.e[i][i]=x; same(CqMatrix(x),f,"multiple of the identity");
	M m=symM("m"); same(CqMatrix(m.e),m,"from 4x4 array"); same(CqMatrix(&m.e[0][0]),m,"from 16 floats"); CqMatrix q; q=m.e; same(q,m,"assigned from a 4x4 array"); CqMatrix q1; q1=&m.e[0][0]; same(q1,m,"assigned from 16 floats");
	same(CqMatrix(m.e[0][0],m.e[0][1],m.e[0][2],m.e[0][3],m.e[1][0],m.e[1][1],m.e[1][2],m.e[1][3],m.e[2][0],m.e[2][1],m.e[2][2],m.e[2][3],m.e[3][0],m.e[3][1],m.e[3][2],m.e[3][3]),m,"from 16 values");
	CqMatrix c(CqMatrix(m.e)); same(c,m,"copy"); c.Identity(); same(c,identM(),"Identity()"); vp_assert(c.fIdentity(),"flag"); 
	CqMatrix g; int i=vp_pick("i",4),j=vp_pick("j",4); g=m.e; g.SetElement(i,j,x); m.e[i][j]=x; same(g,m,"SetElement changes one element"); vp_assert(vp_close(g[i][j],x,0)&vp_close(g.pElements()[4*i+j],x,0),"element access");
}
// Scale, Translate and Shear concatenate onto the current transformation
PROOF(concat){
	M a; CqMatrix A=mk("a",a); float x=rf("x"),y=rf("y"),z=rf("z"); M k=identM();
	switch(vp_pick("op",7)){
	case 0: A.Scale(x,y,z); k.e[0][0]=x; k.e[1][1]=y; k.e[2][2]=z; break;
	case 1: A.Scale(x); k.e[0][0]=k.e[1][1]=k.e[2][2]=x; break;
	case 2: A.Translate(x,y,z); k.e[3][0]=x; k.e[3][1]=y; k.e[3][2]=z; break;
	case 3: A.Translate(CqVector3D(x,y,z)); k.e[3][0]=x; k.e[3][1]=y; k.e[3][2]=z; break;
	case 4: A.ShearX(x,y); k.e[0][1]=x; k.e[0][2]=y; break;
	case 5: A.ShearY(x,y); k.e[1][0]=x; k.e[1][2]=y; break;
	default: A.ShearZ(x,y); k.e[2][0]=x; k.e[2][1]=y; break; }
	same(A,mul(a,k),"Scale/Translate/Shear compose after the current transformation");
}
// rotation: orthogonal, determinant 1, axis fixed, and the angle right handed
PROOF(rotate){
	float an=rf("an"); CqVector3D ax(rf("x"),rf("y"),rf("z")); float n2=ax.x()*ax.x()+ax.y()*ax.y()+ax.z()*ax.z(); vp_assume(n2>0.01f); vp_assume(an!=0);
	M a; CqMatrix A=mk("a",a); float n=sqrtf(n2); float x=ax.x()/n,y=ax.y()/n,z=ax.z()/n; float c=cosf(an), s=sinf(an); 
	// Rodrigues: v' = v c + (k x v) s + k (k.v)(1-c), rows are images of the basis vectors
	M k=identM(); float kx[3]={x,y,z}; float cr[3][3]={{0,z,-y},{-z,0,x},{y,-x,0}}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) k.e[i][j]=(i==j?c:0)+kx[i]*kx[j]*(1-c)+s*cr[i][j];
	A.Rotate(an,ax); same(A,mul(a,k),"Rotate composes the right handed rotation about the normalised axis",1e-2f);
	CqMatrix R(an,ax); same(R,k,"rotation constructor",1e-2f);
}
PROOF(rotate_zero){ M a; CqMatrix A=mk("a",a); CqVector3D ax(rf("x"),rf("y"),rf("z")); A.Rotate(0,ax); same(A,a,"rotating by zero changes nothing"); same(CqMatrix(0.0f,ax),identM(),"zero rotation is the identity"); same(CqMatrix(rf("an"),CqVector3D(0,0,0)),identM(),"a null axis gives the identity"); }
PROOF(determinant){ M a; CqMatrix A=mk("a",a); 
	static const int perm[24][5]={{0,1,2,3,1},{0,1,3,2,-1},{0,2,1,3,-1},{0,2,3,1,1},{0,3,1,2,1},{0,3,2,1,-1},{1,0,2,3,-1},{1,0,3,2,1},{1,2,0,3,1},{1,2,3,0,-1},{1,3,0,2,-1},{1,3,2,0,1},{2,0,1,3,1},{2,0,3,1,-1},{2,1,0,3,-1},{2,1,3,0,1},{2,3,0,1,1},{2,3,1,0,-1},{3,0,1,2,-1},{3,0,2,1,1},{3,1,0,2,1},{3,1,2,0,-1},{3,2,0,1,-1},{3,2,1,0,1}};
	float d=0; for(int p=0;p<24;++p){ float t=perm[p][4]; for(int i=0;i<4;++i) t*=a.e[i][perm[p][i]]; d+=t; }
	vp_assert(vp_close(A.Determinant(),d,5e-2f),"determinant is the Leibniz sum"); }
//@proof inverse nomerge=1 nofeas=1 nonzero=assume budget=300
PROOF(inverse){
	M a; CqMatrix A=mk("a",a); CqMatrix B=A.Inverse(); M b; for(int i=0;i<4;++i) for(int j=0;j<4;++j) b.e[i][j]=B.Element(i,j);
	if(!vp_is_symbolic()){ float d=A.Determinant(); vp_assume(fabsf(d)>30); }
	M p=mul(a,b); for(int i=0;i<4;++i) for(int j=0;j<4;++j) vp_assert(vp_close(p.e[i][j],i==j,0.05f),"A times its inverse is the identity"); same(A,a,"operand unchanged");
}
PROOF(equality){ M a,b; CqMatrix A=mk("a",a), B=mk("b",b); bool eq=true; for(int i=0;i<4;++i) for(int j=0;j<4;++j) eq=eq&(a.e[i][j]==b.e[i][j]); vp_assert((A==B)==eq,"== compares all elements"); vp_assert((A!=B)==!eq,"!= compares all elements"); }
PROOF(close){ M a,b; CqMatrix A=mk("a",a), B=mk("b",b); float tol=vp_f32_in("tol",0,2); float n1=0,n2=0,d=0; for(int i=0;i<4;++i) for(int j=0;j<4;++j){ n1+=a.e[i][j]*a.e[i][j]; n2+=b.e[i][j]*b.e[i][j]; d+=(a.e[i][j]-b.e[i][j])*(a.e[i][j]-b.e[i][j]); }
	vp_assert(isClose(A,B,tol)==(d<=tol*tol*n1 || d<=tol*tol*n2),"isClose compares the distance with the given tolerance"); }
PROOF(vector_normal){
	M a; CqMatrix A=mk("a",a); CqMatrix V=vectorTransform(A); M v=a; for(int i=0;i<3;++i) v.e[i][3]=v.e[3][i]=0; v.e[3][3]=1; same(V,v,"vector transformation keeps the linear part only");
}
PROOF(mat2){
	SqMatrix2D A(rf("a"),rf("b"),rf("c"),rf("d")), B(rf("e"),rf("f"),rf("g"),rf("h")); float k=rf("k");
	SqMatrix2D P=A*B; vp_assert(vp_close(P.a,A.a*B.a+A.b*B.c,TOL)&vp_close(P.b,A.a*B.b+A.b*B.d,TOL)&vp_close(P.c,A.c*B.a+A.d*B.c,TOL)&vp_close(P.d,A.c*B.b+A.d*B.d,TOL),"2D product");
	SqMatrix2D S=A+B; vp_assert(vp_close(S.a,A.a+B.a,TOL)&vp_close(S.b,A.b+B.b,TOL)&vp_close(S.c,A.c+B.c,TOL)&vp_close(S.d,A.d+B.d,TOL),"2D sum"); S=A; S+=B; vp_assert(vp_close(S.a,A.a+B.a,TOL)&vp_close(S.b,A.b+B.b,TOL)&vp_close(S.c,A.c+B.c,TOL)&vp_close(S.d,A.d+B.d,TOL),"2D +=");
	S=A+k; vp_assert(vp_close(S.a,A.a+k,TOL)&vp_close(S.b,A.b,TOL)&vp_close(S.c,A.c,TOL)&vp_close(S.d,A.d+k,TOL),"2D plus multiple of the identity"); S=k+A; vp_assert(vp_close(S.a,A.a+k,TOL)&vp_close(S.d,A.d+k,TOL)&vp_close(S.b,A.b,TOL),"2D scalar plus matrix");
	S=A*k; vp_assert(vp_close(S.a,A.a*k,TOL)&vp_close(S.b,A.b*k,TOL)&vp_close(S.c,A.c*k,TOL)&vp_close(S.d,A.d*k,TOL),"2D scaling"); S=k*A; vp_assert(vp_close(S.a,A.a*k,TOL)&vp_close(S.b,A.b*k,TOL)&vp_close(S.c,A.c*k,TOL)&vp_close(S.d,A.d*k,TOL),"2D scaling");
	S=A.transpose(); vp_assert(vp_close(S.a,A.a,0)&vp_close(S.b,A.c,0)&vp_close(S.c,A.b,0)&vp_close(S.d,A.d,0),"2D transpose");
	float D=A.a*A.d-A.b*A.c; vp_assert(vp_close(A.det(),D,TOL),"2D determinant"); vp_assume(D>0.1f||D<-0.1f); S=A.inv()*A; vp_assert(vp_close(S.a,1,0.05)&vp_close(S.b,0,0.05)&vp_close(S.c,0,0.05)&vp_close(S.d,1,0.05),"2D inverse");
}
// eigenvalues and orthogonal diagonalisation of a symmetric 2D matrix (texture filter ellipses depend on them)
//@proof eigen2 nomerge=1 nonzero=assume
PROOF(eigen2){
	float a=rf("a"),b=rf("b"),d=rf("d"); if(vp_pick("degenerate",2)){ d=a; b=0; } else vp_assume(b>0.1f||b<-0.1f||a-d>0.1f||d-a>0.1f); SqMatrix2D A(a,b,b,d); float l1,l2; A.eigenvalues(l1,l2);
	vp_assert(l1>=l2,"eigenvalues are ordered"); vp_assert(vp_close(l1+l2,a+d,TOL)&vp_close(l1*l2,a*d-b*b,TOL),"eigenvalues have the trace and determinant of the matrix");
	SqMatrix2D R=A.orthogDiagonalize(l1,l2); SqMatrix2D O=R*R.transpose(); vp_assert(vp_close(O.a,1,0.01)&vp_close(O.b,0,0.01)&vp_close(O.c,0,0.01)&vp_close(O.d,1,0.01),"diagonalising matrix is orthogonal");
	SqMatrix2D Q=R*SqMatrix2D(l1,l2)*R.transpose(); vp_assert(vp_close(Q.a,a,0.02)&vp_close(Q.b,b,0.02)&vp_close(Q.c,b,0.02)&vp_close(Q.d,d,0.02),"R D R^T gives the matrix back");
}
// RI Skew: points move along the second axis only, the plane of the second axis and the normal of both is fixed, and the first axis turns by the angle towards the second
//@proof skew nonzero=assume nomerge=1 feas_ms=200
PROOF(skew){
	float an=vp_f32_in("an",-1,1); CqVector3D p(rf("x"),rf("y"),rf("z")), q(rf("u"),rf("v"),rf("w")); 
	CqVector3D d1=p,d2=q; float lp=p.Magnitude(), lq=q.Magnitude(); vp_assume(lp!=0); vp_assume(lq!=0); d1.Unit(); d2.Unit(); CqVector3D n=d1%d2; float ln=n.Magnitude(); vp_assume(ln!=0); if(!vp_is_symbolic()) vp_assume(lp>0.1f && lq>0.1f && ln>0.2f); n.Unit(); CqVector3D o=d2%n;
	CqMatrix S(an,p.x(),p.y(),p.z(),q.x(),q.y(),q.z());
	if(S.fIdentity()){ vp_reach("refused"); if(!vp_is_symbolic()){ float ax=acosf(d1*d2); vp_assert(an>=ax-1e-4f||an<=ax-3.1415927f+1e-4f,"only angles past the axes are refused"); } return; }
	vp_reach("skewed");
	CqVector3D t(rf("t"),rf("t"),rf("t")); CqVector3D r=S*t, m=r-t; CqVector3D c=m%d2; float big=200; 
	if(!vp_is_symbolic()) vp_assume(m.Magnitude()<big);
	vp_assert(vp_close(c.x(),0,0.05)&vp_close(c.y(),0,0.05)&vp_close(c.z(),0,0.05),"points are shifted along lines parallel to the second axis");
	CqVector3D r2=S*d2; vp_assert(vp_close(r2.x(),d2.x(),0.01)&vp_close(r2.y(),d2.y(),0.01)&vp_close(r2.z(),d2.z(),0.01),"the second axis is fixed");
	CqVector3D rn=S*n; vp_assert(vp_close(rn.x(),n.x(),0.01)&vp_close(rn.y(),n.y(),0.01)&vp_close(rn.z(),n.z(),0.01),"the normal of the skew plane is fixed");
	if(!vp_is_symbolic()){ CqVector3D v=S*d1; float l=v.Magnitude(); vp_assume(l<20); v/=l; float ca=v*d1; if(ca>1) ca=1; float got=acosf(ca); vp_assert(fabsf(got-fabsf(an))<0.02f,"the first axis turns by the skew angle"); vp_assert(fabsf(an)<0.02f||((v*d2>d1*d2)==(an>0)),"a positive angle turns towards the second axis"); }
}
// normals stay perpendicular to transformed surfaces
//@proof normal_transform nomerge=1 nofeas=1 nonzero=assume
PROOF(normal_transform){
	M a; CqMatrix A=mk("a",a); if(!vp_is_symbolic()){ CqMatrix V=vectorTransform(A); vp_assume(fabsf(V.Determinant())>5); } CqVector3D n(rf("n"),rf("n"),rf("n")), v(rf("v"),rf("v"),rf("v"));
	CqVector3D n2=normalTransform(A)*n, v2=vectorTransform(A)*v; vp_assert(vp_close(n2*v2,n*v,0.05),"transformed normals keep their products with transformed vectors");
}
PROOF(normalise){ M a=symM("a"); vp_assume(a.e[3][3]>0.1f||a.e[3][3]<-0.1f); CqMatrix A(a.e); A.Normalise(); M r; for(int i=0;i<4;++i) for(int j=0;j<4;++j) vp_assert(vp_close(A.Element(i,j)*a.e[3][3],a.e[i][j],TOL),"Normalise divides every element by the homogeneous one"); }
