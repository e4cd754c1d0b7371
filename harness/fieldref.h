#pragma once
#include "mc.h"
#include <softlib/MagneticField/MagneticField2D.h>
/* a magnetic field with nothing but an axis and a wall */
class PlainField : public MagneticField2D {
    slibreal_t b[3]={0,0,0}; struct flux_diff fd;
public:
    PlainField(double r, double z) { magnetic_axis[0]=r; magnetic_axis[1]=z; }
    void axis(double r, double z) { magnetic_axis[0]=r; magnetic_axis[1]=z; }
    MagneticField2D *Clone() override { return new PlainField(magnetic_axis[0],magnetic_axis[1]); }
    slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return b; }
    struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; }
    slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; }
    struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return &fd; }
    bool HasMagneticFlux() override { return false; }
};
struct Pt { double r,z; };
inline std::string showPoly(const std::vector<Pt>& p) { std::string s="wall"; for (auto& q : p) s+=mc::fmt(" (%g,%g)",q.r,q.z); return s; }
enum Hit { NO, GRAZE, YES };
inline double orient(const Pt& a, const Pt& b, const Pt& c) { return (b.r-a.r)*(c.z-a.z)-(b.z-a.z)*(c.r-a.r); }
inline bool onBox(const Pt& a, const Pt& b, const Pt& p) { return p.r>=std::min(a.r,b.r)&&p.r<=std::max(a.r,b.r)&&p.z>=std::min(a.z,b.z)&&p.z<=std::max(a.z,b.z); }
/* within EPS of touching: GRAZE (the answer is left open) */
inline Hit segseg(const Pt& a, const Pt& b, const Pt& p, const Pt& q) {
    const double E=1e-9; double o1=orient(a,b,p), o2=orient(a,b,q), o3=orient(p,q,a), o4=orient(p,q,b);
    auto near=[&](double o, const Pt& u, const Pt& v, const Pt& x) { return fabs(o)<=E && x.r>=std::min(u.r,v.r)-E&&x.r<=std::max(u.r,v.r)+E&&x.z>=std::min(u.z,v.z)-E&&x.z<=std::max(u.z,v.z)+E; };
    if (near(o1,a,b,p)||near(o2,a,b,q)||near(o3,p,q,a)||near(o4,p,q,b)) return GRAZE;
    return ((o1>0)!=(o2>0)) && ((o3>0)!=(o4>0)) && o1!=0 && o2!=0 && o3!=0 && o4!=0 ? YES : NO;
}
inline Hit polyseg(const std::vector<Pt>& w, const Pt& p, const Pt& q) { Hit h=NO; for (size_t i=0;i<w.size();i++) h=std::max(h,segseg(w[i],w[(i+1)%w.size()],p,q)); return h; }
/* surface of revolution of the segment (a,b) against the straight line p->q */
inline Hit conehit(const Pt& a, const Pt& b, const double *p, const double *q) {
    typedef long double L; const L E=1e-9L; auto in=[&](L x)->Hit{ return x>E&&x<1-E? YES : x>=-E&&x<=1+E? GRAZE : NO; };
    L dx=q[0]-p[0], dy=q[1]-p[1], dz=q[2]-p[2];
    if (a.z==b.z) { if (dz==0) return p[2]==a.z? GRAZE : NO; L t=(a.z-p[2])/dz; Hit h=in(t); if (h==NO) return NO; L R=hypotl(p[0]+t*dx,p[1]+t*dy); if (a.r==b.r) return fabsl(R-a.r)<E? GRAZE : NO; return std::min(h,in((R-a.r)/((L)b.r-a.r))); }
    L iz=1/((L)b.z-a.z), kz=dz*iz, mz=(p[2]-(L)a.z)*iz, c=((L)b.r-a.r)*kz, m=a.r+mz*((L)b.r-a.r), A=dx*dx+dy*dy-c*c, B=dx*p[0]+dy*p[1]-c*m, C=(L)p[0]*p[0]+(L)p[1]*p[1]-m*m; // A t^2 + 2 B t + C = 0
    std::vector<L> ts; bool dbl=false;
    if (fabsl(A)<1e-12L) { if (fabsl(B)<1e-12L) { if (fabsl(C)>1e-12L) return NO; // the line lies in the surface
            L s0=mz, s1=mz+kz; return std::max(s0,s1)<-E||std::min(s0,s1)>1+E? NO : GRAZE; } ts={-C/(2*B)}; }
    else { L D=B*B-A*C; if (fabsl(D)<1e-12L) { ts={-B/A}; dbl=true; } else if (D<0) return NO; else { L s=sqrtl(D); ts={(-B+s)/A,(-B-s)/A}; } }
    Hit best=NO; for (L t : ts) { L s=kz*t+mz; Hit h=std::min(in(t),in(s)); if (h==YES && dbl) h=GRAZE; best=std::max(best,h); } return best;
}
