/* G04: vector and matrix algebra against plain arrays of numbers: all operand values of a small alphabet, all aliasings, all short op sequences. */
#include "mc.h"
#include <softlib/Vector.h>
#include <softlib/Matrix.h>
#include <complex>
#include <array>
using namespace std;
typedef vector<double> A;
static string sh(const A& v) { string s="("; for (double d : v) s+=mc::fmt("%g ",d); return s+")"; }
template<class X> static X cst(const X& x) { return x; }
template<unsigned N> static A get(const Vector<N,double>& v) { A a; for (unsigned i=0;i<N;i++) a.push_back(v[i]); return a; }
template<unsigned N> static Vector<N,double> mkv(const A& a) { return Vector<N,double>(a.data()); }
template<unsigned M,unsigned N> static A get(const Matrix<M,N,double>& m) { A a; for (unsigned i=0;i<M;i++) for (unsigned j=0;j<N;j++) a.push_back(m(i,j)); return a; }
static void eq(mc::Ctx& c, const char *what, const A& got, const A& want) { c.step(); c.require(got.size()==want.size(),"%s: size",what); for (size_t i=0;i<want.size();i++) if (!(got[i]==want[i] || (got[i]!=got[i]&&want[i]!=want[i]))) c.require(false,"%s: got %s, expected %s",what,sh(got).c_str(),sh(want).c_str()); }
static void eqf(mc::Ctx& c, const char *what, const A& got, const A& want) { c.step(); for (size_t i=0;i<want.size();i++) if (!(fabs(got[i]-want[i])<=1e-15*fabs(want[i])*4 || got[i]==want[i])) c.require(false,"%s: got %s, expected %s",what,sh(got).c_str(),sh(want).c_str()); }
static A zip(const A& a, const A& b, char op) { A r; for (size_t i=0;i<a.size();i++) r.push_back(op=='+'? a[i]+b[i] : op=='-'? a[i]-b[i] : a[i]*b[i]); return r; }
static A sc(const A& a, double s, char op) { A r; for (double x : a) r.push_back(op=='+'? x+s : op=='-'? x-s : op=='*'? x*s : op=='/'? x/s : s-x); return r; }
static A cross(const A& a, const A& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dot(const A& a, const A& b) { double s=0; for (size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
static A pickA(mc::Ctx& c, unsigned n, const vector<double>& al) { A a; for (unsigned i=0;i<n;i++) a.push_back(c.pickOf(al)); return a; }
/* every operation on one pair of operands, distinct or the same object */
template<unsigned N> static void pairOps(mc::Ctx& c, const A& x, const A& y, double s) {
    typedef Vector<N,double> V; const V a(x.data()), b(y.data()); const double cs=s;
    c.noteL([&]{ return "a="+sh(x)+" b="+sh(y)+mc::fmt(" s=%g",s); });
    auto keep=[&](const char *op){ eq(c,op,get(a),x); eq(c,op,get(b),y); c.require(cs==s,"%s changed its scalar",op); };
    eq(c,"a+b",get(V(a+b)),zip(x,y,'+')); keep("a+b changed an operand"); eq(c,"a-b",get(V(a-b)),zip(x,y,'-')); keep("a-b changed an operand"); eq(c,"a+a",get(V(a+a)),zip(x,x,'+')); eq(c,"a-a",get(V(a-a)),zip(x,x,'-'));
    eq(c,"a+s",get(V(a+cs)),sc(x,s,'+')); eq(c,"s+a",get(V(cs+a)),sc(x,s,'+')); eq(c,"a-s",get(V(a-cs)),sc(x,s,'-')); eq(c,"s-a",get(V(cs-a)),sc(x,s,'r')); eq(c,"a*s",get(V(a*cs)),sc(x,s,'*')); eq(c,"s*a",get(V(cs*a)),sc(x,s,'*')); if (s) eqf(c,"a/s",get(V(a/cs)),sc(x,s,'/')); keep("scalar arithmetic changed an operand");
    { V u(a); V m=-u; eq(c,"-a",get(m),sc(x,-1,'*')); eq(c,"-a changed a",get(u),x); }
    c.require(a.Dot(b)==dot(x,y),"a.b is %g, expected %g",a.Dot(b),dot(x,y)); c.require(a.Dot(a)==dot(x,x),"a.a"); { double n=a.Norm(), w=sqrt(dot(x,x)); c.require(fabs(n-w)<=1e-15*w*4,"|a| is %.17g, expected %.17g",n,w); if (w>0) { V u(a); u.Normalize(); A e; for (double d : x) e.push_back(d/w); eqf(c,"normalised",get(u),e); c.require(fabs(u.Norm()-1)<1e-14,"norm after normalisation"); } } keep("Dot/Norm changed an operand");
    double arr[N+1]; arr[N]=77; a.ToArray(arr); eq(c,"ToArray",A(arr,arr+N),x); c.require(arr[N]==77,"ToArray writes too much"); c.require(a.size()==N,"size");
    // in-place forms, distinct operand
    struct Op { const char *n; char k; bool s; }; static const Op ops[]={{"a+=b",'+',false},{"a-=b",'-',false},{"a=b",'=',false},{"a+=s",'+',true},{"a-=s",'-',true},{"a*=s",'*',true},{"a/=s",'/',true},{"a=s",'=',true}};
    for (auto& o : ops) { if (o.k=='/' && s==0) continue; V u(a); V& r= !o.s? (o.k=='+'? u+=b : o.k=='-'? u-=b : u=b) : (o.k=='+'? u+=cs : o.k=='-'? u-=cs : o.k=='*'? u*=cs : o.k=='/'? u/=cs : u=cs); c.require(&r==&u,"%s does not return its target",o.n); A w= !o.s? (o.k=='='? y : zip(x,y,o.k)) : o.k=='='? A(N,s) : sc(x,s,o.k); (o.k=='/'?eqf:eq)(c,o.n,get(u),w); keep(o.n);
        // the operand is the target itself, or one of its elements
        if (!o.s) { V v(a); if (o.k=='+') v+=v; else if (o.k=='-') v-=v; else v=cst<V&>(v); eq(c,(string(o.n)+" with b=a").c_str(),get(v),o.k=='='? x : zip(x,x,o.k)); }
        else for (unsigned i=0;i<N;i++) { if (o.k=='/' && x[i]==0) continue; V v(a); const double& e=v[i]; if (o.k=='+') v+=e; else if (o.k=='-') v-=e; else if (o.k=='*') v*=e; else if (o.k=='/') v/=e; else v=e; (o.k=='/'?eqf:eq)(c,(string(o.n)+mc::fmt(" with s=a[%u]",i)).c_str(),get(v),o.k=='='? A(N,x[i]) : sc(x,x[i],o.k)); } }
    { V u; eq(c,"default",get(u),A(N,0)); u=y.data(); eq(c,"assigned from an array",get(u),y); Vector<N,complex<double>> z(a); for (unsigned i=0;i<N;i++) c.require(z[i]==complex<double>(x[i],0),"conversion"); z*=complex<double>(0,2); for (unsigned i=0;i<N;i++) c.require(z[i]==complex<double>(0,2*x[i]),"complex product"); if (dot(x,x)>0) c.require(abs(z.Norm()-complex<double>(2*sqrt(dot(x,x)),0))<1e-13*sqrt(dot(x,x)),"complex norm"); Vector<N,float> f(a); for (unsigned i=0;i<N;i++) c.require(f[i]==(float)x[i],"float conversion"); }
}
template<unsigned N> static void crossOps(mc::Ctx&, const A&, const A&) {}
template<> void crossOps<3>(mc::Ctx& c, const A& x, const A& y) {
    typedef Vector<3,double> V; const V a(x.data()), b(y.data()); A w=cross(x,y);
    eq(c,"Cross(a,b)",get(V(V::Cross(a,b))),w); eq(c,"Cross changed a",get(a),x); eq(c,"Cross changed b",get(b),y); { V o; V& r=V::Cross(a,b,o); c.require(&r==&o,"Cross does not return its output"); eq(c,"Cross(a,b,c)",get(o),w); }
    { V u(a); V::Cross(u,b,u); eq(c,"Cross(a,b,a)",get(u),w); } { V u(b); V::Cross(a,u,u); eq(c,"Cross(a,b,b)",get(u),w); } { V u(a); V::Cross(u,u,u); eq(c,"Cross(a,a,a)",get(u),A(3,0)); } eq(c,"Cross(a,a)",get(V(V::Cross(a,a))),A(3,0));
    c.require(V::Cross(a,b).Dot(a)==0 && V::Cross(a,b).Dot(b)==0,"cross product is not perpendicular");
}
static const vector<double> AL3={-2,0,1,3}, AL={-2,-0.5,0,1,3,7}, SC={-2,-1,0,0.5,1,4};
template<unsigned N> static void vec(mc::Ctx& c) { const auto& al= N<3||c.thorough? AL : AL3; A x=pickA(c,N,al), y=pickA(c,N,al); double s=c.pickOf(N<3||c.thorough? SC : vector<double>{-2,0.5}); pairOps<N>(c,x,y,s); crossOps<N>(c,x,y); mc::u64 h=N; for (double d : x) h=mc::mix(h,mc::hdbl(d)); for (double d : y) h=mc::mix(h,mc::hdbl(d)); c.state(h); }
static void v1(mc::Ctx& c) { vec<1>(c); } static void v2(mc::Ctx& c) { vec<2>(c); } static void v3(mc::Ctx& c) { vec<3>(c); }
/* higher dimensions: values in two components at every pair of places */
template<unsigned N> static void vecN(mc::Ctx& c) { A x,y; for (unsigned i=0;i<N;i++) { x.push_back((int)(i*i%7)-3); y.push_back(2-(int)(i*3%5)); } unsigned i=c.pick(N), j=c.pick(N); x[i]=c.pickOf(AL); y[j]=c.pickOf(c.thorough? AL : AL3); double s=c.pickOf(c.thorough? SC : vector<double>{-2,0.5}); pairOps<N>(c,x,y,s); c.state(mc::mix(mc::mix(N,i*100+j),mc::mix(mc::hdbl(x[i]),mc::hdbl(y[j])))); }
static void vhigh(mc::Ctx& c) { switch (c.pick(6)) { case 0: vecN<4>(c); break; case 1: vecN<5>(c); break; case 2: vecN<6>(c); break; case 3: vecN<7>(c); break; case 4: vecN<8>(c); break; default: vecN<9>(c); } }
/* sequences over two registers of 3-vectors: every statement, including self-referring expressions */
template<unsigned N> static void seq(mc::Ctx& c, int L) {
    typedef Vector<N,double> V; A m[2]; for (unsigned i=0;i<N;i++) { m[0].push_back(1+(double)i*i); m[1].push_back(2-(double)i); } V r[2]={V(m[0].data()),V(m[1].data())};
    for (int k=0;k<L;k++) { int op=c.pick(14), t=c.pick(2), u=1-t; V& a=r[t]; V& b=r[u]; A& x=m[t]; A& y=m[u];
        static const char *nm[]={"a+=b","a-=b","a+=a","a=a+b","a=b-a","a=-b","a*=b[last]","a=2-a","a=a*2","a/=-2","a=b","a-=a[0]","a=a+a-b","Cross/norm"}; c.note(mc::fmt("register %d: %s",t,nm[op]));
        switch (op) { case 0: a+=b; x=zip(x,y,'+'); break; case 1: a-=b; x=zip(x,y,'-'); break; case 2: a+=a; x=zip(x,x,'+'); break; case 3: a=a+b; x=zip(x,y,'+'); break; case 4: a=b-a; x=zip(y,x,'-'); break; case 5: a=-b; x=sc(y,-1,'*'); break; case 6: a*=b[N-1]; x=sc(x,y[N-1],'*'); break; case 7: a=2.0-a; x=sc(x,2,'r'); break; case 8: a=a*2.0; x=sc(x,2,'*'); break; case 9: a/=-2.0; x=sc(x,-2,'/'); break; case 10: a=b; x=y; break; case 11: a-=a[0]; x=sc(x,x[0],'-'); break; case 12: a=a+a-b; x=zip(zip(x,x,'+'),y,'-'); break;
            case 13: if constexpr (N==3) { V::Cross(a,b,a); x=cross(x,y); } else { a*=a.Dot(b); x=sc(x,dot(x,y),'*'); } break; }
        eq(c,"target",get(a),x); eq(c,"other register",get(b),y); }
    mc::u64 h=N; for (auto& v : m) for (double d : v) h=mc::mix(h,mc::hdbl(d)); c.state(h);
}
static void seq3(mc::Ctx& c) { seq<3>(c,c.thorough?4:3); } static void seq2(mc::Ctx& c) { seq<2>(c,3); }
static void nocross(mc::Ctx& c) { int n=c.pick(2); bool t=false; try { if (n==0) { Vector<2> a,b,o; Vector<2>::Cross(a,b,o); } else { Vector<1> a,b,o; Vector<1>::Cross(a,b,o); } } catch (SOFTLibException&) { t=true; } c.step(); c.state(n); c.require(t,"a cross product in other than three dimensions is not refused"); }
/* matrices */
static A mmul(const A& a, const A& b, int m, int n, int k) { A r(m*k,0); for (int i=0;i<m;i++) for (int j=0;j<k;j++) for (int l=0;l<n;l++) r[i*k+j]+=a[i*n+l]*b[l*k+j]; return r; }
/* matrix entries as bilinear patterns: all of the alphabet in a window, fixed elsewhere */
static A pickM(mc::Ctx& c, unsigned n, bool th, int seed) { static const vector<double> al={-1,0,2}, fx={3,-2,1,5,-4,2,7,-3,4}; A a; unsigned freeN= n>9? 2 : th? 5 : 4, off=c.pick(n>freeN? 2 : 1)? n-freeN : 0; for (unsigned i=0;i<n;i++) a.push_back(i>=off && i<off+freeN? c.pickOf(al) : fx[(i+seed)%9]); return a; }
template<unsigned M,unsigned N> static void mat(mc::Ctx& c) {
    typedef Matrix<M,N,double> T; A x=pickM(c,M*N,c.thorough,0), y; double s=c.pickOf(vector<double>{-2,0,0.5,3}); { static const vector<double> fx={3,-2,1,5,-4,2,7,-3,4}; int o=c.pick(3); for (unsigned i=0;i<M*N;i++) y.push_back(fx[(i*(o+1)+o)%9]); }
    const T a(x.data()), b(y.data()); const double cs=s; c.noteL([&]{ return mc::fmt("%ux%u ",M,N)+"a="+sh(x)+" b="+sh(y)+mc::fmt(" s=%g",s); });
    auto keep=[&](const char *op){ eq(c,op,get(a),x); eq(c,op,get(b),y); };
    c.require(a.Rows()==M&&a.Cols()==N,"size"); for (unsigned i=0;i<M*N;i++) c.require(a(i)==x[i],"linear index"); eq(c,"element access",get(a),x); eq(c,"default",get(T()),A(M*N,0));
    { const double *rows[M]; for (unsigned i=0;i<M;i++) rows[i]=x.data()+i*N; T u(rows); eq(c,"from rows",get(u),x); T v(u); eq(c,"copy",get(v),x); v(0)=99; v(M-1,N-1)=98; eq(c,"original of a changed copy",get(u),x); c.require(v(M*N-1)==98,"element"); }
    eq(c,"a+b",get(T(a+b)),zip(x,y,'+')); eq(c,"a-b",get(T(a-b)),zip(x,y,'-')); eq(c,"a+s",get(T(a+cs)),sc(x,s,'+')); eq(c,"s+a",get(T(cs+a)),sc(x,s,'+')); eq(c,"a-s",get(T(a-cs)),sc(x,s,'-')); eq(c,"s-a",get(T(cs-a)),sc(x,s,'r')); eq(c,"a*s",get(T(a*cs)),sc(x,s,'*')); eq(c,"s*a",get(T(cs*a)),sc(x,s,'*')); eq(c,"a+a",get(T(a+a)),zip(x,x,'+')); eq(c,"a-a",get(T(a-a)),A(M*N,0)); keep("arithmetic changed an operand");
    { T u(a); T m=-u; eq(c,"-a",get(m),sc(x,-1,'*')); eq(c,"-a changed a",get(u),x); }
    for (int k=0;k<8;k++) { T u(a); T *r; A w; const char *n; switch (k) { case 0: n="a+=b"; r=&(u+=b); w=zip(x,y,'+'); break; case 1: n="a-=b"; r=&(u-=b); w=zip(x,y,'-'); break; case 2: n="a=b"; r=&(u=b); w=y; break; case 3: n="a+=s"; r=&(u+=cs); w=sc(x,s,'+'); break; case 4: n="a-=s"; r=&(u-=cs); w=sc(x,s,'-'); break; case 5: n="a*=s"; r=&(u*=cs); w=sc(x,s,'*'); break; case 6: n="a+=a"; r=&(u+=u); w=zip(x,x,'+'); break; default: n="a-=a"; r=&(u-=u); w=A(M*N,0); break; } c.require(r==&u,"%s does not return its target",n); eq(c,n,get(u),w); keep(n); }
    { for (unsigned i=0;i<M*N;i++) { T u(a); u*=u(i); eq(c,"a*=a(i)",get(u),sc(x,x[i],'*')); T v(a); v-=v(i); eq(c,"a-=a(i)",get(v),sc(x,x[i],'-')); T z(a); z+=z(i); eq(c,"a+=a(i)",get(z),sc(x,x[i],'+')); } }
    // products
    A v(N),w(M); for (unsigned i=0;i<N;i++) v[i]=2-(int)i*3; for (unsigned i=0;i<M;i++) w[i]=1+(int)i*2; Vector<N,double> vv(v.data()); Vector<M,double> ww(w.data());
    eq(c,"A v",get(Vector<M,double>(a*vv)),mmul(x,v,M,N,1)); eq(c,"w A",get(Vector<N,double>(ww*a)),mmul(w,x,1,M,N)); eq(c,"products changed v",get(vv),v); eq(c,"products changed w",get(ww),w); { A o; for (double p : w) for (double q : v) o.push_back(p*q); eq(c,"w v^T",get(T(ww,vv)),o); }
    A z; for (unsigned i=0;i<N*2;i++) z.push_back(1+(i*5)%4); Matrix<N,2,double> zz(z.data()); eq(c,"A Z",get(Matrix<M,2,double>(a*zz)),mmul(x,z,M,N,2)); A t; for (unsigned i=0;i<N;i++) for (unsigned j=0;j<M;j++) t.push_back(y[j*N+i]); Matrix<N,M,double> tt(t.data()); eq(c,"A B^T",get(Matrix<M,M,double>(a*tt)),mmul(x,t,M,N,M)); keep("matrix product changed an operand"); eq(c,"matrix product changed its right operand",get(tt),t);
    if constexpr (M==N) { T u(a); T& r=(u*=b); c.require(&r==&u,"a*=b does not return its target"); eq(c,"a*=b",get(u),mmul(x,y,M,M,M)); keep("a*=b"); T q(a); q*=q; eq(c,"a*=a",get(q),mmul(x,x,M,M,M)); eq(c,"a*=b against a*b",get(u),get(T(a*b))); }
    mc::u64 h=M*4+N; for (double d : x) h=mc::mix(h,mc::hdbl(d)); c.state(h);
}
static void bigmats(mc::Ctx& c) { switch (c.pick(4)) { case 0: mat<4,4>(c); break; case 1: mat<3,4>(c); break; case 2: mat<5,2>(c); break; default: mat<6,6>(c); } }
static void mats(mc::Ctx& c) { int k=c.pick(9); switch (k) { case 0: mat<1,1>(c); break; case 1: mat<1,2>(c); break; case 2: mat<1,3>(c); break; case 3: mat<2,1>(c); break; case 4: mat<2,2>(c); break; case 5: mat<2,3>(c); break; case 6: mat<3,1>(c); break; case 7: mat<3,2>(c); break; default: mat<3,3>(c); } }
/* the same algebra over other number types: whole numbers (exact in every type), quotients that come out even */
template<class T> static T num(int k, int j) { if constexpr (is_same<T,complex<double>>::value || is_same<T,complex<float>>::value) return T(k,j); else { (void)j; return (T)k; } }
template<class T,unsigned N> static void typed(mc::Ctx& c) {
    typedef Vector<N,T> V; typedef vector<T> B; B x,y; static const vector<int> al={-6,0,4,30}; for (unsigned i=0;i<N;i++) x.push_back(num<T>(c.pickOf(al),2*(int)i)); { int o=c.pick(3); for (unsigned i=0;i<N;i++) y.push_back(num<T>((int)((i*5+o*3)%7)-3,(int)i-1)); } const T s=num<T>(c.pickOf(vector<int>{-2,1,2}),0);
    const V a(x.data()), b(y.data()); auto same=[&](const char *what, const V& g, auto f) { c.step(); for (unsigned i=0;i<N;i++) c.require(g[i]==(T)f(i),"%s: component %u of %u",what,i,N); };
    same("a+b",a+b,[&](unsigned i){ return x[i]+y[i]; }); same("a-b",a-b,[&](unsigned i){ return x[i]-y[i]; }); same("a+s",a+s,[&](unsigned i){ return x[i]+s; }); same("s+a",s+a,[&](unsigned i){ return x[i]+s; }); same("a-s",a-s,[&](unsigned i){ return x[i]-s; }); same("s-a",s-a,[&](unsigned i){ return s-x[i]; }); same("a*s",a*s,[&](unsigned i){ return x[i]*s; }); same("s*a",s*a,[&](unsigned i){ return x[i]*s; }); same("a/s",a/s,[&](unsigned i){ return x[i]/s; });
    { V u(a); same("-a",-u,[&](unsigned i){ return -x[i]; }); V v(a); v/=s; same("a/=s",v,[&](unsigned i){ return x[i]/s; }); v=a; v*=s; same("a*=s",v,[&](unsigned i){ return x[i]*s; }); v=a; v+=b; same("a+=b",v,[&](unsigned i){ return x[i]+y[i]; }); v-=b; same("a-=b",v,[&](unsigned i){ return x[i]; }); v+=s; v-=s; same("a+=s, a-=s",v,[&](unsigned i){ return x[i]; }); v=s; same("a=s",v,[&](unsigned){ return s; }); v=y.data(); same("a=array",v,[&](unsigned i){ return y[i]; });
      for (unsigned k=0;k<N;k++) { V w(a); w-=w[k]; same("a-=a[k]",w,[&](unsigned i){ return x[i]-x[k]; }); w=a; w*=w[k]; same("a*=a[k]",w,[&](unsigned i){ return x[i]*x[k]; }); w=V(); w+=s; w/=w[k]; same("a/=a[k]",w,[&](unsigned){ return T(1); }); } }
    { T d=0; for (unsigned i=0;i<N;i++) d+=x[i]*y[i]; c.require(a.Dot(b)==d,"dot product"); }
    if constexpr (!is_integral<T>::value) { double n=0; for (unsigned i=0;i<N;i++) n+=std::norm(complex<double>(x[i])); c.require(std::abs(a.Norm()-T(sqrt(n)))<=1e-6*sqrt(n),"norm"); }
    if constexpr (N==3) { V o; V::Cross(a,b,o); same("cross",o,[&](unsigned i){ return x[(i+1)%3]*y[(i+2)%3]-x[(i+2)%3]*y[(i+1)%3]; }); }
    typedef Matrix<N,2,T> Mx; B m; for (unsigned i=0;i<2*N;i++) m.push_back(num<T>((int)(i*3%5)-2,(int)i%2)); const Mx A0(m.data()); auto sameM=[&](const char *what, const Mx& g, auto f) { c.step(); for (unsigned i=0;i<2*N;i++) c.require(g(i)==(T)f(i),"%s: element %u",what,i); };
    sameM("A",A0,[&](unsigned i){ return m[i]; }); sameM("A+A",A0+A0,[&](unsigned i){ return m[i]+m[i]; }); sameM("A*s",A0*s,[&](unsigned i){ return m[i]*s; }); sameM("s*A",s*A0,[&](unsigned i){ return m[i]*s; }); sameM("s-A",s-A0,[&](unsigned i){ return s-m[i]; }); sameM("A-s",A0-s,[&](unsigned i){ return m[i]-s; }); sameM("A+s",A0+s,[&](unsigned i){ return m[i]+s; }); sameM("s+A",s+A0,[&](unsigned i){ return m[i]+s; }); sameM("-A",-A0,[&](unsigned i){ return -m[i]; }); sameM("A-A",A0-A0,[&](unsigned){ return T(0); });
    { Vector<2,T> p=a*A0; for (unsigned j=0;j<2;j++) { T d=0; for (unsigned i=0;i<N;i++) d+=x[i]*m[i*2+j]; c.require(p[j]==d,"vector times matrix: component %u",j); } Vector<2,T> q; q[0]=s; q[1]=num<T>(3,1); V r=A0*q; for (unsigned i=0;i<N;i++) c.require(r[i]==m[i*2]*q[0]+m[i*2+1]*q[1],"matrix times vector: component %u",i); Matrix<2,2,T> e(q,q); Mx z=A0*e; for (unsigned i=0;i<N;i++) for (unsigned j=0;j<2;j++) c.require(z(i,j)==m[i*2]*q[0]*q[j]+m[i*2+1]*q[1]*q[j],"matrix product"); }
    same("an operand changed",a,[&](unsigned i){ return x[i]; }); same("an operand changed",b,[&](unsigned i){ return y[i]; });
    mc::u64 h=N*100+sizeof(T); for (auto& d : x) h=mc::mix(h,mc::hdbl(std::abs(d))); c.state(h);
}
template<class T> static void typedN(mc::Ctx& c) { switch (c.pick(4)) { case 0: typed<T,1>(c); break; case 1: typed<T,2>(c); break; case 2: typed<T,3>(c); break; default: typed<T,4>(c); } }
static void types(mc::Ctx& c) { switch (c.pick(5)) { case 0: typedN<float>(c); break; case 1: typedN<int>(c); break; case 2: typedN<complex<double>>(c); break; case 3: typedN<long long>(c); break; default: typedN<long double>(c); } }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "G04", {
        {"vec1", v1, 1, "all vector operations, dimension 1, 6 values per component x 6 scalars, all aliasings"},
        {"vec2", v2, 2, "same, dimension 2"},
        {"vec3", v3, 3, "same, dimension 3, 4 (thorough 6) values per component, and cross products in every aliasing"},
        {"vec4to9", vhigh, 2, "same, dimensions 4 to 9, one free component in each operand at every pair of places"},
        {"seq3", seq3, 2, "all sequences of 3 (thorough 4) of 14 statements on two registers of 3-vectors"},
        {"seq2", seq2, 2, "all sequences of 3 of 14 statements on two registers of 2-vectors"},
        {"nocross", nocross, 1, "cross products in dimensions 1 and 2"},
        {"types", types, 2, "vectors and matrices of float, int, complex, long long and long double numbers, dimensions 1 to 4"},
        {"bigmatrix", bigmats, 2, "the same matrix operations for 4x4, 3x4, 5x2 and 6x6"},
        {"matrix", mats, 3, "all matrix operations, all sizes 1..3 x 1..3, entries from {-1,0,2} in a window of 4 (thorough 5) elements, 4 scalars, all aliasings"},
    });
}
