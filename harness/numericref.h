#pragma once
#include "fieldref.h"
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include <softlib/SOFTLibException.h>
#include <array>
#include <memory>
/* the data of a gridded field; node (i,j) = (R[i],Z[j]) at [i+j*nr] */
struct Grid { std::vector<double> R,Z,Br,Bp,Bz,Psi,rs,zs,rw,zw; double ra=0,za=0; std::string name="n", desc="d";
    size_t nr() const { return R.size(); } size_t nz() const { return Z.size(); }
    static double *dup(const std::vector<double>& v) { if (v.empty()) return nullptr; double *p=new double[v.size()]; std::copy(v.begin(),v.end(),p); return p; }
    MagneticFieldNumeric2D *make() const { return new MagneticFieldNumeric2D(name,desc,dup(R),dup(Z),(unsigned)R.size(),(unsigned)Z.size(),dup(Br),dup(Bp),dup(Bz),dup(Psi),ra,za,dup(rs),dup(zs),(unsigned)rs.size(),dup(rw),dup(zw),(unsigned)rw.size()); }
    void box() { double r0=R.front(), r1=R.back(), z0=Z.front(), z1=Z.back(); ra=(r0+r1)/2; za=(z0+z1)/2; rw={r0,r1,r1,r0}; zw={z0,z0,z1,z1}; }
    template<class F> void fill(F f) { size_t n=R.size()*Z.size(); Br.resize(n); Bp.resize(n); Bz.resize(n); Psi.resize(n); for (size_t j=0;j<Z.size();j++) for (size_t i=0;i<R.size();i++) { auto v=f(R[i],Z[j],i,j); size_t k=i+j*R.size(); Br[k]=v[0]; Bp[k]=v[1]; Bz[k]=v[2]; Psi[k]=v[3]; } }
};
typedef std::array<double,4> V4;
inline const std::vector<std::array<double,2>>& angles() { static const std::vector<std::array<double,2>> A={{1,0},{0.8,0.6},{0,1},{-0.6,0.8},{-1,0},{-0.28,-0.96},{0,-1},{0.96,-0.28}}; return A; }
inline bool close(double a, double b, double scale, double tol=1e-11) { return std::isfinite(a) && fabs(a-b)<=tol*std::max(scale,1e-300); }
/* analytic quantities of a field given in cylindrical components and their R,Z derivatives */
struct Cyl { double br,bp,bz, brr,brz,bpr,bpz,bzr,bzz, r,c,s;
    void cart(double B[3]) const { B[0]=br*c-bp*s; B[1]=br*s+bp*c; B[2]=bz; }
    void jac(double J[3][3]) const { double er[3]={c,s,0}, ep[3]={-s,c,0}, ez[3]={0,0,1}; // dB/dr, (1/r)dB/dphi, dB/dz in cylindrical basis
        double D[3][3]={{brr,-bp/r,brz},{bpr,br/r,bpz},{bzr,0,bzz}}; const double *e[3]={er,ep,ez}; for (int i=0;i<3;i++) for (int j=0;j<3;j++) { J[i][j]=0; for (int a=0;a<3;a++) for (int b=0;b<3;b++) J[i][j]+=e[a][i]*D[a][b]*e[b][j]; } }
};
