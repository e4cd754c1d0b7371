/* M01: wall-crossing tests against exact geometry on a lattice. */
#include "fieldref.h"
using namespace std;
static vector<double> RV(const vector<Pt>& w) { vector<double> v; for (auto& p : w) v.push_back(p.r); return v; } static vector<double> ZV(const vector<Pt>& w) { vector<double> v; for (auto& p : w) v.push_back(p.z); return v; }
static void install(PlainField& f, vector<double>& r, vector<double>& z) { try { f.SetDomain(r.data(),z.data(),(unsigned)r.size()); } catch (SOFTLibException&) { /* the axis level does not meet the wall: no radii, but a wall nevertheless */ } }
static void place(int k, double R, double& x, double& y) { static const double C[]={1,0,-1,0,0.955336489125606,-0.6}, S[]={0,1,0,-1,0.29552020666133957,0.8}; x=R*C[k]; y=R*S[k]; }
static const vector<Pt>& grid(int n) { static vector<Pt> g4,g5,g3; if (g4.empty()) { for (int r=1;r<=4;r++) for (int z=-1;z<=2;z++) g4.push_back({(double)r,(double)z}); for (int r=1;r<=3;r++) for (int z=-1;z<=1;z++) g3.push_back({(double)r,(double)z}); } return n==3? g3 : g4; }
static void paths2d(mc::Ctx& c, PlainField& f, const vector<Pt>& w, const vector<Pt>& ends, int k1, int k2) {
    for (auto& p : ends) for (auto& q : ends) { Hit h=polyseg(w,p,q); double x1,y1,x2,y2; place(k1,p.r,x1,y1); place(k2,q.r,x2,y2); bool got=f.CrossesDomain(x1,y1,p.z,x2,y2,q.z); c.step();
        if (h!=GRAZE) c.require(got==(h==YES),"%s: path (%g,%g)-(%g,%g) %s the wall, but CrossesDomain says %s",showPoly(w).c_str(),p.r,p.z,q.r,q.z,h==YES?"crosses":"does not touch",got?"crossed":"not crossed");
        double a[3]={x1,y1,p.z}, b[3]={x2,y2,q.z}; if (h!=GRAZE) c.require(f.CrossesDomain(a,b)==got,"CrossesDomain(pointer, pointer) differs"); c.state(mc::mix(mc::mix(h,(int)((q.r-p.r)*8+100)),(int)((q.z-p.z)*8+100))); }
}
static vector<Pt> half(double r0, double r1, double z0, double z1, double d) { vector<Pt> v; for (double r=r0;r<=r1;r+=d) for (double z=z0;z<=z1;z+=d) v.push_back({r,z}); return v; }
static void poly2d(mc::Ctx& c, int n, int g) {
    vector<Pt> w; for (int i=0;i<n;i++) w.push_back(c.pickOf(grid(g))); int ang=c.pick(c.thorough?3:2); PlainField f(2,0); vector<double> r=RV(w), z=ZV(w); c.noteL([&]{ return showPoly(w); }); install(f,r,z);
    static const vector<Pt> E4=half(0.5,4.5,-1.5,2.5,1), I4=half(0,5,-2,3,1), E3=half(0.75,3.25,-1.25,1.25,0.5), I3=half(0,4,-2,2,1);
    paths2d(c,f,w,g==3?E3:E4,ang*2,ang); paths2d(c,f,w,g==3?I3:I4,ang,ang);
}
static void tri(mc::Ctx& c) { poly2d(c,3,c.thorough?4:3); } static void quad(mc::Ctx& c) { poly2d(c,4,3); } static void two(mc::Ctx& c) { poly2d(c,2,4); }
/* walls given open or closed, clockwise or not, starting at any vertex: the answer is the same */
static void repr(mc::Ctx& c) {
    static const vector<vector<Pt>> W={ {{1,-1},{4,-1},{4,2},{1,2}}, {{1,0},{2,-1},{4,0},{3,2},{2,1}}, {{1,-1},{3,0},{1,2}}, {{1,-1},{4,-1},{4,0},{2,0},{2,1},{4,1},{4,2},{1,2}} };
    vector<Pt> w=c.pickOf(W); int n=(int)w.size(), s=c.pick(8)%n; bool rev=c.flip(), closed=c.flip(), mid=c.flip(); if (rev) reverse(w.begin(),w.end()); rotate(w.begin(),w.begin()+s,w.end()); if (mid) { vector<Pt> v; for (int i=0;i<n;i++) { auto&a=w[i]; auto&b=w[(i+1)%n]; v.push_back(a); v.push_back({(a.r+b.r)/2,(a.z+b.z)/2}); } w=v; } vector<Pt> wc=w; if (closed) wc.push_back(w[0]);
    PlainField f(1.5,0.5); vector<double> r=RV(wc), z=ZV(wc); install(f,r,z); c.noteL([&]{ return showPoly(wc); }); static const vector<Pt> E=half(0.3,4.8,-1.45,2.6,0.5); int k1=c.pick(c.thorough?6:3), k2=c.thorough? c.pick(6) : 5-2*k1+(k1==2); paths2d(c,f,w,E,k1,k2);
    for (auto& q : E) for (int k=0;k<6;k++) { Pt ax={1.5,0.5}; Hit h=polyseg(w,ax,q); double p[3]; place(k,q.r,p[0],p[1]); p[2]=q.z; if (h==GRAZE) continue; c.step(); c.require(f.CrossesDomain(p)==(h==YES) && f.CrossesDomain(p[0],p[1],p[2])==(h==YES),"%s: point (%g,%g) seen from the axis: wrong",showPoly(wc).c_str(),q.r,q.z); }
}
/* three dimensions */
static void paths3d(mc::Ctx& c, PlainField& f, const vector<Pt>& w, const vector<array<double,3>>& E, bool outer, double axisR, double sc=1) { // sc: exact power of two
    for (auto& p : E) for (auto& q : E) { Hit h=NO; for (size_t i=0;i<w.size();i++) { auto& a=w[i]; auto& b=w[(i+1)%w.size()]; if (!outer && a.r>axisR && b.r>axisR) continue; h=max(h,conehit(a,b,p.data(),q.data())); }
        double a[3]={p[0]*sc,p[1]*sc,p[2]*sc}, b[3]={q[0]*sc,q[1]*sc,q[2]*sc}; bool got=f.IntersectsDomain3D(a[0],a[1],a[2],b[0],b[1],b[2],outer); c.step(); if (h==GRAZE) continue;
        c.require(got==(h==YES),"%s (scale %g): line (%g,%g,%g)-(%g,%g,%g) %s the wall, but IntersectsDomain3D%s says %s",showPoly(w).c_str(),sc,p[0],p[1],p[2],q[0],q[1],q[2],h==YES?"hits":"does not touch",outer?"":" without outer wall",got?"hit":"no hit");
        c.require(f.IntersectsDomain3D(a,b,outer)==got,"IntersectsDomain3D(pointer, pointer) differs at (%g,%g,%g)-(%g,%g,%g)",p[0],p[1],p[2],q[0],q[1],q[2]); if (outer) c.require(f.IntersectsDomain3D(a[0],a[1],a[2],b[0],b[1],b[2])==got && f.IntersectsDomain3D(a,b)==got,"default argument"); }
    c.state(mc::mix(mc::mix(mc::hdbl(w[0].r),mc::hdbl(w[0].z)),mc::mix(mc::hdbl(w[1].r),mc::hdbl(w[1].z))));
}
static vector<array<double,3>> cube(const vector<double>& x, const vector<double>& y, const vector<double>& z) { vector<array<double,3>> v; for (double a : x) for (double b : y) for (double d : z) v.push_back({a,b,d}); return v; }
static void seg3d(mc::Ctx& c) { vector<Pt> g; for (int r=0;r<=3;r++) for (int z=-1;z<=1;z++) g.push_back({(double)r,(double)z}); Pt a=c.pickOf(g), b=c.pickOf(g); vector<Pt> w={a,b}; double sc=c.pickOf(vector<double>{1,0x1p-14,0x1p-24}); PlainField f(sc,0); vector<double> r=RV(w), z=ZV(w); for (auto& x : r) x*=sc; for (auto& x : z) x*=sc; install(f,r,z); c.noteL([&]{ return showPoly(w); });
    static const auto E=cube({-4,-2,-1,0,1,2,3},{-2,0,1,3},{-2,-1,0,1,2}), H=cube({-3.5,-1.5,-0.5,0.5,1.5,2.5},{-2.5,-0.25,0.5,1.25},{-1.5,-0.5,0.5,1.5}); if (sc==1||c.thorough) paths3d(c,f,w,E,true,1,sc); paths3d(c,f,w,H,true,1,sc); if (c.thorough) { static const auto K=cube({-3.75,-2.25,-1.25,-0.5,0.5,1.25,2,3.5},{-3,-1.5,-0.25,0.5,1.25,2.5},{-1.75,-0.75,-0.5,0.25,0.5,1.25}); paths3d(c,f,w,K,true,1,sc); } }
static void tri3d(mc::Ctx& c) { vector<Pt> g; for (int r=1;r<=3;r++) for (int z=-1;z<=1;z++) g.push_back({(double)r,(double)z}); vector<Pt> w={c.pickOf(g),c.pickOf(g),c.pickOf(g)}; bool outer=c.flip(), closed=c.flip(); double ax=c.pickOf(vector<double>{1.5,2.5,2}); PlainField f(ax,0); vector<Pt> wc=w; if (closed) wc.push_back(w[0]); vector<double> r=RV(wc), z=ZV(wc); install(f,r,z); c.noteL([&]{ return showPoly(wc)+mc::fmt(" axis %g",ax); }); static const auto E=cube({-3.5,-1.5,0.5,1.5,3},{-2.5,0,0.5,2},{-1.5,-0.5,0.5}); paths3d(c,f,w,E,outer,ax); }
static void nowall(mc::Ctx& c) { int k=c.pick(2); PlainField f(2,0); vector<double> e(1,2.0); if (k) { try { f.SetDomain(e.data(),e.data(),0); } catch (SOFTLibException&) {} } c.step(); c.require(!f.CrossesDomain(1.0,0.0,0.0,5.0,1.0,1.0),"a field without a wall is crossed"); c.require(!f.IntersectsDomain3D(1.0,0.0,0.0,5.0,1.0,1.0),"a field without a wall is hit"); c.state(k); }
/* walls of many points, and the same geometry at other scales (exact powers of two) */
static void many(mc::Ctx& c) {
    static const vector<int> NS={5,6,7,8,9,10,15,16,17,31,32,33,63,64,65,99,100,101,127,128,129,199,200,255,256,257,400,511,512,513,1000,5000}; int n= c.pickOf(NS), shape=c.pick(3); bool closed=c.flip(); double sc=c.pickOf(vector<double>{1,1.0/4096,4096.0,0x1p-24}); if (n>1000&&(sc!=1||closed)) return; vector<Pt> w; double off=c.pick(2)*0.37;
    for (int i=0;i<n;i++) { double a=2*M_PI*i/n+off+0.01, q= shape==0? 1 : shape==1? (i%2? 0.6 : 1.1) : 0.7+0.4*i/n; w.push_back({2.1+q*cos(a),0.3+1.3*q*sin(a)}); } vector<Pt> wc=w; if (closed) wc.push_back(w[0]);
    PlainField f(2*sc,0.25*sc); vector<double> r=RV(wc), z=ZV(wc); for (auto& x : r) x*=sc; for (auto& x : z) x*=sc; install(f,r,z); c.note(mc::fmt("%d points, shape %d, %s, scale %g",n,shape,closed?"closed":"open",sc));
    vector<Pt> E=half(0.45,3.6,-1.35,2,n>1000?1.3:n>300?0.8:0.55); E.push_back({2,0.25}); E.push_back({2.9,0.31}); E.push_back({3.3,0.32}); E.push_back({3.05,0.33});
    for (auto& p : E) for (auto& q : E) { Hit h=polyseg(w,p,q); if (h==GRAZE) continue; double x,y; place(4,q.r*sc,x,y); bool got=f.CrossesDomain(p.r*sc,0,p.z*sc,x,y,q.z*sc); c.step(); c.require(got==(h==YES),"wall of %d points (shape %d, scale %g): path (%g,%g)-(%g,%g) %s the wall, but CrossesDomain says %s",n,shape,sc,p.r,p.z,q.r,q.z,h==YES?"crosses":"does not touch",got?"crossed":"not crossed"); }
    static const vector<array<double,3>> T={{2,0.1,0.25},{-2.3,0.4,0.1},{0.4,2.2,0.6},{3.9,0.2,0.3},{-0.3,-0.2,0.4},{1.7,-1.1,-0.4},{0.2,-3.1,1.2},{2.4,1.2,2.2},{-1.9,-0.9,-0.7},{3.1,0.02,0.33}};
    for (int outer=0;outer<2;outer++) for (auto& p : T) for (auto& q : T) { Hit h=NO; for (size_t i=0;i<w.size()&&h!=GRAZE;i++) { auto &a=w[i], &b=w[(i+1)%w.size()]; if (!outer && a.r>2 && b.r>2) continue; Hit k=conehit(a,b,p.data(),q.data()); if (k==GRAZE) h=GRAZE; else h=max(h,k); } if (h==GRAZE) continue; c.step();
        bool got=f.IntersectsDomain3D(p[0]*sc,p[1]*sc,p[2]*sc,q[0]*sc,q[1]*sc,q[2]*sc,outer); c.require(got==(h==YES),"wall of %d points (shape %d, scale %g): line (%g,%g,%g)-(%g,%g,%g) %s the wall, but IntersectsDomain3D%s says %s",n,shape,sc,p[0],p[1],p[2],q[0],q[1],q[2],h==YES?"hits":"does not touch",outer?"":" without outer wall",got?"hit":"no hit"); }
    c.state(mc::mix(n*10+shape,closed));
}
/* paths that end on the wall, or pass through it at a vertex (everything here is exact in floating point) */
static Hit strict(const vector<Pt>& w, const Pt& p, const Pt& q) { size_t n=w.size(); bool graze=false; for (size_t i=0;i<n;i++) { const Pt &a=w[i], &b=w[(i+1)%n]; if (a.r==b.r&&a.z==b.z) continue; double o1=orient(a,b,p), o2=orient(a,b,q), o3=orient(p,q,a), o4=orient(p,q,b); bool apart=(o3>0&&o4<0)||(o3<0&&o4>0);
        if (apart && ((o1>0&&o2<0)||(o1<0&&o2>0))) return YES; if (apart && (o1==0)!=(o2==0)) return YES; // an end of the path lies within the segment
        if (o4==0 && onBox(p,q,b) && ((o1>0)!=(o2>0)) && o1!=0 && o2!=0) { const Pt& d=w[(i+2)%n]; double o5=orient(p,q,d); if ((o3>0&&o5<0)||(o3<0&&o5>0)) return YES; } // from one side to the other through a vertex
        if (segseg(a,b,p,q)==GRAZE) graze=true; } return graze? GRAZE : NO; }
static void touch(mc::Ctx& c) { vector<Pt> w; int n=3+c.pick(2); for (int i=0;i<n;i++) w.push_back(c.pickOf(grid(n==3?4:3))); int k=c.pick(2)*2; PlainField f(2,0); vector<double> r=RV(w), z=ZV(w); c.noteL([&]{ return showPoly(w); }); install(f,r,z); static const vector<Pt> I4=half(0,5,-2,3,1);
    for (auto& p : I4) for (auto& q : I4) { Hit h=strict(w,p,q); if (h==GRAZE) continue; double x1,y1,x2,y2; place(k,p.r,x1,y1); place(k,q.r,x2,y2); bool got=f.CrossesDomain(x1,y1,p.z,x2,y2,q.z); c.step(); c.require(got==(h==YES),"%s: path (%g,%g)-(%g,%g) %s the wall, but CrossesDomain says %s",showPoly(w).c_str(),p.r,p.z,q.r,q.z,h==YES?"crosses or ends on":"does not touch",got?"crossed":"not crossed"); c.state(mc::mix(mc::mix(h,(int)(p.r*8+q.r)),(int)(p.z*8+q.z+100))); } }
/* lines and wall segments that are nearly level, and lines that end on a level one */
static void thin(mc::Ctx& c) { static const vector<int> K={2,6,10,14,18,20,22,24,30}; double d=ldexp(1,-c.pickOf(K)); double z0=c.pickOf(vector<double>{0,0.5,-1}); bool outer=c.flip(); double ax=c.pickOf(vector<double>{1.5,3.5}); int form=c.pick(4); vector<Pt> w; if (form==0) w={{1,z0},{3,z0}}; else if (form==1) w={{3,z0},{1,z0},{2,z0+2}}; else if (form==2) w={{1,z0},{3,z0+max(d,ldexp(1,-10))}}; else w={{1,z0-1},{3,z0-1},{3,z0},{1,z0}};
    PlainField f(ax,z0); vector<double> r=RV(w), z=ZV(w); install(f,r,z); c.noteL([&]{ return showPoly(w)+mc::fmt(" line height %g",d); }); static const vector<array<double,2>> XY={{2,0},{-2,0.25},{0.5,1.5},{0.25,0.5},{-2.5,-0.5},{0,-3.5},{1.25,1.25}};
    for (auto& p : XY) for (auto& q : XY) for (int a=-2;a<=2;a++) for (int b=-2;b<=2;b++) { double P[3]={p[0],p[1],z0+a*d}, Q[3]={q[0],q[1],z0+b*d}; Hit h=NO; for (size_t i=0;i<w.size();i++) { const Pt &u=w[i], &v=w[(i+1)%w.size()]; if (!outer && u.r>ax && v.r>ax) continue; Hit k=conehit(u,v,P,Q);
                if (k==GRAZE && u.z==v.z && (a==0)!=(b==0) && u.z==z0) { const double *e= a==0? P : Q; double R=hypot(e[0],e[1]); if (R>min(u.r,v.r)+1e-6&&R<max(u.r,v.r)-1e-6) k=YES; } h=max(h,k); } if (h==GRAZE) continue; bool got=f.IntersectsDomain3D(P[0],P[1],P[2],Q[0],Q[1],Q[2],outer); c.step(); c.require(got==(h==YES),"%s: line (%g,%g,%.17g)-(%g,%g,%.17g) %s the wall, but IntersectsDomain3D%s says %s",showPoly(w).c_str(),P[0],P[1],P[2],Q[0],Q[1],Q[2],h==YES?"hits":"does not touch",outer?"":" without outer wall",got?"hit":"no hit");
                if (form!=2||true) { Pt A={hypot(P[0],P[1]),P[2]}, B={hypot(Q[0],Q[1]),Q[2]}; Hit g=NO; for (size_t i=0;i<w.size();i++) { const Pt &u=w[i], &v=w[(i+1)%w.size()]; double o1=orient(u,v,A), o2=orient(u,v,B), o3=orient(A,B,u), o4=orient(A,B,v); double m=1e-3*d; if (fabs(o1)<m||fabs(o2)<m||fabs(o3)<m||fabs(o4)<m) { g=GRAZE; break; } if ((o1>0)!=(o2>0)&&(o3>0)!=(o4>0)) g=YES; } if (g!=GRAZE) { got=f.CrossesDomain(P[0],P[1],P[2],Q[0],Q[1],Q[2]); c.step(); c.require(got==(g==YES),"%s: path (%g,%.17g)-(%g,%.17g) %s the wall, but CrossesDomain says %s",showPoly(w).c_str(),A.r,A.z,B.r,B.z,g==YES?"crosses":"does not touch",got?"crossed":"not crossed"); } } }
    c.state(mc::mix(mc::hdbl(d),mc::mix(mc::hdbl(z0),form*4+outer))); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "M01", {
        {"two", two, 1, "all 2-point walls on a 4x4 lattice x all straight paths on two lattices (half-integer and integer), 2-3 toroidal placements"},
        {"triangles", tri, 2, "all triangles on a 3x3 (thorough 4x4) lattice x all paths on two lattices"},
        {"quads", quad, 2, "all quadrilaterals (also self-crossing, degenerate) on a 3x3 lattice x all paths"},
        {"forms", repr, 2, "4 walls, every starting vertex, both directions, open or closed, with and without intermediate points, all toroidal placements, and points seen from the axis"},
        {"seg3d", seg3d, 1, "all wall segments on a 4x3 lattice x all 3D lines on integer and half-integer lattices, at 3 scales"},
        {"tri3d", tri3d, 2, "all triangles on a 3x3 lattice, open/closed, with and without outer wall, three axes (one level with wall points), x all lines on a lattice of 60 points"},
        {"many", many, 3, "walls of 32 sizes from 5 to 5000 points x 3 shapes (round, star, spiral) x open/closed x 2 starting angles x 4 scales (down to 2^-24), x about 30x30 paths and 10x10 lines with and without outer wall"},
        {"touch", touch, 2, "all triangles on a 4x4 lattice and quadrilaterals on a 3x3 lattice x all integer paths, including those that end on the wall or cross it at a vertex"},
        {"thin", thin, 2, "nearly level lines (9 heights down to 2^-30) and wall segments, x 3 levels x 4 walls x 2 axes x with and without outer wall x 49 line pairs x 25 end heights"},
        {"nowall", nowall, 1, "no wall at all"},
    });
}
