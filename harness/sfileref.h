/* Reference model of a data file: named variables of a kind, element type and shape, and the answer
 * every read function owes for them.  Written from the SFile interface documentation. */
#pragma once
#include <limits>
#include <map>
#include <memory>
#include <softlib/SFile.h>
#include <softlib/SFile_HDF5.h>
#include <softlib/SFile_MAT.h>
#include <softlib/SFile_SDT.h>
#include <softlib/SFileException.h>
#include "mc.h"

namespace sf {
enum Fmt { HDF=0, MAT=1, SDT=2 };
static const char *EXT[3]={"h5","mat","sdt"};
enum Type { F64, I32, I64, U32, U64, STR };
static const char *TN[6]={"double","int32","int64","uint32","uint64","string"};
struct Val { double d=0; __int128 i=0; };
struct Var { std::string name; Type type=F64; std::vector<sfilesize_t> dims; std::vector<Val> v; std::string s;
    size_t n() const { return v.size(); }
    sfilesize_t rows() const { return dims.size()==1?1:dims[0]; } sfilesize_t cols() const { return dims.size()==1?dims[0]:dims[1]; }
    bool is2d() const { return type!=STR && dims.size()<=2; } bool vec() const { return is2d() && (rows()==1||cols()==1); } bool scalar() const { return is2d() && rows()==1 && cols()==1; } };
struct Attr { std::string name; bool isStr=false; double d=0; std::string s; };
struct File { std::map<std::string,Var> var; std::map<std::pair<std::string,std::string>,Attr> att; };

template<class T> struct TT; 
template<> struct TT<double> { static const Type t=F64; }; template<> struct TT<int32_t> { static const Type t=I32; }; template<> struct TT<int64_t> { static const Type t=I64; };
template<> struct TT<uint32_t> { static const Type t=U32; }; template<> struct TT<uint64_t> { static const Type t=U64; };
template<class T> Val mkval(T x) { Val v; if (TT<T>::t==F64) v.d=(double)x; else v.i=(__int128)x; return v; }
/// value as element type T; ok=false if it is not exactly representable there
template<class T> T as(const Var& a, size_t k, bool& ok) {
    const Val& v=a.v[k]; ok=true;
    if (TT<T>::t==F64) { if (a.type==F64) return (T)v.d; double d=(double)v.i; ok= (__int128)d==v.i; return (T)d; }
    __int128 i; if (a.type==F64) { if (!(fabs(v.d)<9e18) || v.d!=floor(v.d)) { ok=false; return 0; } i=(__int128)v.d; } else i=v.i;
    ok= i>=(__int128)std::numeric_limits<T>::min() && i<=(__int128)std::numeric_limits<T>::max(); return (T)i;
}
template<class T> bool same(T a, T b) { return a==b; }
inline bool same(double a, double b) { return (std::isnan(a)&&std::isnan(b)) || memcmp(&a,&b,sizeof a)==0; }

inline SFile *make(int fmt, const std::string& path, sfile_mode m) { (void)fmt; return SFile::Create(path,m); }

enum Outcome { VALUE, SFEXC, NULLP };
/// runs f; returns SFEXC if it raises the library's file exception. Anything else propagates as a violation.
template<class F> Outcome guarded(mc::Ctx& c, const std::string& what, F f) {
    try { f(); return VALUE; }
    catch (SFileException&) { return SFEXC; }
    catch (mc::Failure&) { throw; } catch (mc::Skip&) { throw; }
    catch (H5::Exception& e) { c.require(false,"%s: an HDF5 exception escapes (%s)",what.c_str(),e.getCDetailMsg()); }
    catch (std::exception& e) { c.require(false,"%s: raises %s, not a file exception",what.c_str(),e.what()); }
    return VALUE;
}
/* ---- the read functions ---- */
struct Held { std::function<bool()> intact; std::function<void()> scribble, free; };
enum { R_D2, R_I32_2, R_I64_2, R_U32_2, R_U64_2, R_D1, R_I32_1, R_I64_1, R_U32_1, R_U64_1, R_LIST, R_SCAL, R_I32, R_I64, R_U32, R_U64, R_INTARR, R_INTLIST, R_INT, R_MULTI, R_MULTIP, R_MULTISMALL, R_STR, R_HAS, R_TYPE, NREAD };
static const char *RN[NREAD]={"GetDoubles","GetInt32_2D","GetInt64_2D","GetUInt32_2D","GetUInt64_2D","GetDoubles1D","GetInt32_1D","GetInt64_1D","GetUInt32_1D","GetUInt64_1D","GetList","GetScalar","GetInt32","GetInt64","GetUInt32","GetUInt64","GetIntArray","GetIntList","GetInt","GetMultiArray_linear","GetMultiArray","GetMultiArray_linear(limit too small)","GetString","HasVariable","GetDataType"};

template<class T> void check2d(mc::Ctx& c, const std::string& w, const Var *a, int fmt, std::function<T**(sfilesize_t*)> rd, std::vector<Held>& held, bool viaInt=false) {
    sfilesize_t d[2]={777,777}; T **p=nullptr; Outcome o=guarded(c,w,[&]{ p=rd(d); }); c.step();
    if (!a || (a->type==STR && (fmt!=MAT||viaInt)) || (a->type!=STR && !a->is2d())) { c.require(o==SFEXC,"%s succeeds though there is no such array",w.c_str()); return; }
    if (a->type==STR) { if (o==VALUE) { delete[] p[0]; delete[] p; } return; }
    c.require(o==VALUE,"%s raises a file exception",w.c_str());
    c.require(d[0]==a->rows() && d[1]==a->cols(),"%s: size is %llux%llu, not %llux%llu",w.c_str(),(unsigned long long)d[0],(unsigned long long)d[1],(unsigned long long)a->rows(),(unsigned long long)a->cols());
    for (size_t i=0;i<d[0];i++) for (size_t j=0;j<d[1];j++) { bool ok; T e=as<T>(*a,i*d[1]+j,ok); if (!ok) continue; c.require(same(p[i][j],e),"%s: element (%zu,%zu) is %.17g, not %.17g",w.c_str(),i,j,(double)p[i][j],(double)e); }
    auto copy=std::make_shared<std::vector<T>>(p[0],p[0]+d[0]*d[1]); size_t n=d[0]*d[1];
    held.push_back({[p,copy,n]{ for (size_t k=0;k<n;k++) if (!same(p[0][k],(*copy)[k])) return false; return true; }, [p,copy,n]{ for (size_t k=0;k<n;k++) (*copy)[k]=p[0][k]=(T)(91+k); }, [p]{ delete[] p[0]; delete[] p; }});
}
template<class T> void check1d(mc::Ctx& c, const std::string& w, const Var *a, int fmt, std::function<T*(sfilesize_t*)> rd, std::vector<Held>& held, int strict /*0 lenient on matrices, 1 strict, 2 via GetDataType*/) {
    sfilesize_t d=777; T *p=nullptr; Outcome o=guarded(c,w,[&]{ p=rd(&d); }); c.step();
    if (!a || (a->type==STR && (fmt!=MAT||strict==2)) || (a->type!=STR && !a->is2d())) { c.require(o==SFEXC,"%s succeeds though there is no such list",w.c_str()); return; }
    if (a->type==STR) { if (o==VALUE) delete[] p; return; }
    if (!a->vec()) { if (strict==1) c.require(o==SFEXC,"%s accepts a matrix as a list",w.c_str()); if (o==SFEXC) return; c.require(d==a->n(),"%s: %llu elements of a matrix of %zu",w.c_str(),(unsigned long long)d,a->n()); }
    else { c.require(o==VALUE,"%s raises a file exception",w.c_str()); c.require(d==a->n(),"%s: length is %llu, not %zu",w.c_str(),(unsigned long long)d,a->n()); }
    for (size_t i=0;i<d;i++) { bool ok; T e=as<T>(*a,i,ok); if (!ok) continue; c.require(same(p[i],e),"%s: element %zu is %.17g, not %.17g",w.c_str(),i,(double)p[i],(double)e); }
    auto copy=std::make_shared<std::vector<T>>(p,p+d); size_t n=d;
    held.push_back({[p,copy,n]{ for (size_t k=0;k<n;k++) if (!same(p[k],(*copy)[k])) return false; return true; }, [p,copy,n]{ for (size_t k=0;k<n;k++) (*copy)[k]=p[k]=(T)(83+k); }, [p]{ delete[] p; }});
}
template<class T> void check0d(mc::Ctx& c, const std::string& w, const Var *a, int fmt, std::function<T()> rd, bool viaInt=false) {
    T x=0; Outcome o=guarded(c,w,[&]{ x=rd(); }); c.step();
    if (a && a->type==STR && fmt==MAT && !viaInt) return;
    if (!a || !a->is2d() || !a->scalar()) { c.require(o==SFEXC,"%s succeeds though there is no such scalar",w.c_str()); return; }
    bool ok; T e=as<T>(*a,0,ok); if (!ok) return;
    c.require(o==VALUE,"%s raises a file exception",w.c_str()); c.require(same(x,e),"%s: is %.17g, not %.17g",w.c_str(),(double)x,(double)e);
}
inline void doRead(mc::Ctx& c, SFile *f, int fmt, const File& m, const std::string& name, int r, std::vector<Held>& held) {
    auto it=m.var.find(name); const Var *a= it==m.var.end()? nullptr : &it->second; std::string w=mc::fmt("[%s] %s(%s)",EXT[fmt],RN[r],name.c_str());
    if (c.trace) c.note(w);
    switch (r) {
        case R_D2: check2d<double>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetDoubles(name,d); },held); break;
        case R_I32_2: check2d<int32_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetInt32_2D(name,d); },held); break;
        case R_I64_2: check2d<int64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetInt64_2D(name,d); },held); break;
        case R_U32_2: check2d<uint32_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetUInt32_2D(name,d); },held); break;
        case R_U64_2: check2d<uint64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetUInt64_2D(name,d); },held); break;
        case R_D1: check1d<double>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetDoubles1D(name,d); },held,0); break;
        case R_I32_1: check1d<int32_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetInt32_1D(name,d); },held,0); break;
        case R_I64_1: check1d<int64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetInt64_1D(name,d); },held,0); break;
        case R_U32_1: check1d<uint32_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetUInt32_1D(name,d); },held,0); break;
        case R_U64_1: check1d<uint64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetUInt64_1D(name,d); },held,0); break;
        case R_LIST: check1d<double>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetList(name,d); },held,1); break;
        case R_SCAL: check0d<double>(c,w,a,fmt,[&]{ return f->GetScalar(name); }); break;
        case R_I32: check0d<int32_t>(c,w,a,fmt,[&]{ return f->GetInt32(name); }); break;
        case R_I64: check0d<int64_t>(c,w,a,fmt,[&]{ return f->GetInt64(name); }); break;
        case R_U32: check0d<uint32_t>(c,w,a,fmt,[&]{ return f->GetUInt32(name); }); break;
        case R_U64: check0d<uint64_t>(c,w,a,fmt,[&]{ return f->GetUInt64(name); }); break;
        case R_INTARR: check2d<int64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetIntArray(name,d); },held,true); break;
        case R_INTLIST: check1d<int64_t>(c,w,a,fmt,[&](sfilesize_t*d){ return f->GetIntList(name,d); },held,2); break;
        case R_INT: check0d<int64_t>(c,w,a,fmt,[&]{ return f->GetInt(name); },true); break;
        case R_MULTI: case R_MULTIP: case R_MULTISMALL: {
            sfilesize_t nd=777, d[4]={777,777,777,777}; double *p=nullptr; void *q=nullptr; sfilesize_t lim= r==R_MULTISMALL? (a? a->dims.size()-1 : 0) : 4; if (r==R_MULTISMALL && a && lim==0) { c.step(); return; }
            Outcome o=guarded(c,w,[&]{ if (r==R_MULTIP) q=f->GetMultiArray(name,lim,nd,d); else p=f->GetMultiArray_linear(name,lim,nd,d); }); c.step();
            if (!a || fmt==SDT || (a->type==STR && fmt!=MAT)) { c.require(o==SFEXC,"%s succeeds",w.c_str()); return; }
            if (a->type==STR) { return; }
            c.require(o==VALUE,"%s raises a file exception",w.c_str());
            if (r==R_MULTISMALL) { c.require(p==nullptr,"%s returns data that does not fit",w.c_str()); return; }
            c.require(nd==a->dims.size(),"%s: %llu dimensions, not %zu",w.c_str(),(unsigned long long)nd,a->dims.size()); size_t n=1; for (size_t k=0;k<nd;k++) { c.require(d[k]==a->dims[k],"%s: dimension %zu is %llu, not %llu",w.c_str(),k,(unsigned long long)d[k],(unsigned long long)a->dims[k]); n*=d[k]; }
            if (r==R_MULTIP) { void *x=q; for (size_t k=1;k<nd;k++) x=*(void**)x; p=(double*)x;
                // every element is reachable through its index path
                std::vector<size_t> ix(nd,0); for (size_t lin=0;lin<n;lin++) { size_t t=lin; for (size_t k=nd;k-->0;) { ix[k]=t%d[k]; t/=d[k]; } void *y=q; for (size_t k=0;k+1<nd;k++) y=((void**)y)[ix[k]]; bool ok; double e=as<double>(*a,lin,ok); if (ok) c.require(same(((double*)y)[ix[nd-1]],e),"%s: element %zu is wrong",w.c_str(),lin); } }
            for (size_t k=0;k<n;k++) { bool ok; double e=as<double>(*a,k,ok); if (ok) c.require(same(p[k],e),"%s: element %zu is %.17g, not %.17g",w.c_str(),k,p[k],e); }
            auto copy=std::make_shared<std::vector<double>>(p,p+n);
            held.push_back({[p,copy,n]{ for (size_t k=0;k<n;k++) if (!same(p[k],(*copy)[k])) return false; return true; }, [p,copy,n]{ for (size_t k=0;k<n;k++) (*copy)[k]=p[k]=71.0+k; }, [p]{ delete[] p; }});
        } break;
        case R_STR: { std::string s; Outcome o=guarded(c,w,[&]{ s=f->GetString(name); }); c.step(); if (!a || a->type!=STR) { c.require(o==SFEXC,"%s succeeds though there is no such string",w.c_str()); return; } c.require(o==VALUE,"%s raises a file exception",w.c_str()); c.require(s==a->s,"%s: is %s, not %s",w.c_str(),mc::show(s).c_str(),mc::show(a->s).c_str()); } break;
        case R_HAS: { bool b=false; guarded(c,w,[&]{ b=f->HasVariable(name); }); c.step(); c.require(b==(a!=nullptr),"%s is %s",w.c_str(),b?"true":"false"); } break;
        case R_TYPE: { SFile::sfile_data_type t=SFile::SFILE_DATA_UNDEFINED; guarded(c,w,[&]{ t=f->GetDataType(name); }); c.step(); static const SFile::sfile_data_type X[6]={SFile::SFILE_DATA_DOUBLE,SFile::SFILE_DATA_INT32,SFile::SFILE_DATA_INT64,SFile::SFILE_DATA_UINT32,SFile::SFILE_DATA_UINT64,SFile::SFILE_DATA_STRING};
            SFile::sfile_data_type e= !a? SFile::SFILE_DATA_UNDEFINED : (fmt==SDT && a->type!=STR)? SFile::SFILE_DATA_DOUBLE : X[a->type]; c.require(t==e,"%s is %d, not %d",w.c_str(),(int)t,(int)e); } break;
    }
}
inline void readAttr(mc::Ctx& c, SFile *f, int fmt, const File& m, const std::string& var, const std::string& name, bool str) {
    std::string w=mc::fmt("[%s] attribute %s of %s as %s",EXT[fmt],name.c_str(),var.c_str(),str?"string":"scalar"); if (c.trace) c.note(w);
    auto it=m.att.find({var,name}); const Attr *a= it==m.att.end()? nullptr : &it->second; double d=0; std::string s;
    Outcome o=guarded(c,w,[&]{ if (str) s=f->GetAttributeString(var,name); else d=f->GetAttributeScalar(var,name); }); c.step();
    if (!a || a->isStr!=str) { c.require(o==SFEXC,"%s succeeds though there is none",w.c_str()); return; }
    c.require(o==VALUE,"%s raises a file exception",w.c_str());
    if (str) c.require(s==a->s,"%s: is %s",w.c_str(),mc::show(s).c_str()); else c.require(same(d,a->d),"%s: is %.17g, not %.17g",w.c_str(),d,a->d);
}
/* ---- writing ---- */
template<class T> std::vector<T*> rowsOf(std::vector<T>& buf, size_t r, size_t cc) { std::vector<T*> p(r+1,buf.data()); for (size_t i=0;i<r;i++) p[i]=buf.data()+i*cc; return p; }
/// write variable a (form: 0 generic overload/natural, 1 explicit function, 2 multi-array)
inline void writeVar(SFile *f, const Var& a, int form=0) {
    auto go=[&](auto zero){ typedef decltype(zero) T; std::vector<T> b; for (size_t k=0;k<a.n();k++) { bool ok; b.push_back(as<T>(a,k,ok)); } if (b.empty()) b.reserve(1);
        if (a.dims.size()>2 || form==2) {
            if constexpr (std::is_same<T,double>::value) f->WriteMultiArray(a.name,b.data(),a.dims.size(),a.dims.data());
            else if constexpr (std::is_same<T,int32_t>::value) f->WriteMultiInt32Array(a.name,b.data(),a.dims.size(),a.dims.data());
            else if constexpr (std::is_same<T,int64_t>::value) f->WriteMultiInt64Array(a.name,b.data(),a.dims.size(),a.dims.data());
            else if constexpr (std::is_same<T,uint32_t>::value) f->WriteMultiUInt32Array(a.name,b.data(),a.dims.size(),a.dims.data());
            else f->WriteMultiUInt64Array(a.name,b.data(),a.dims.size(),a.dims.data());
        } else if (a.dims.size()==1) {
            if (form==0) f->WriteList(a.name,b.data(),a.n());
            else if constexpr (std::is_same<T,double>::value) { if (a.n()==1) f->WriteScalar(a.name,b[0]); else f->WriteList(a.name,b.data(),a.n()); }
            else if constexpr (std::is_same<T,int32_t>::value) f->WriteInt32List(a.name,b.data(),a.n());
            else if constexpr (std::is_same<T,int64_t>::value) f->WriteInt64List(a.name,b.data(),a.n());
            else if constexpr (std::is_same<T,uint32_t>::value) f->WriteUInt32List(a.name,b.data(),a.n());
            else f->WriteUInt64List(a.name,b.data(),a.n());
        } else {
            auto p=rowsOf(b,a.dims[0],a.dims[1]);
            if (form==0) f->WriteArray(a.name,p.data(),a.dims[0],a.dims[1]);
            else if constexpr (std::is_same<T,double>::value) { if (a.dims[0]==a.dims[1]) f->WriteImage(a.name,p.data(),a.dims[0]); else f->WriteArray(a.name,p.data(),a.dims[0],a.dims[1]); }
            else if constexpr (std::is_same<T,int32_t>::value) f->WriteInt32Array(a.name,p.data(),a.dims[0],a.dims[1]);
            else if constexpr (std::is_same<T,int64_t>::value) f->WriteInt64Array(a.name,p.data(),a.dims[0],a.dims[1]);
            else if constexpr (std::is_same<T,uint32_t>::value) f->WriteUInt32Array(a.name,p.data(),a.dims[0],a.dims[1]);
            else f->WriteUInt64Array(a.name,p.data(),a.dims[0],a.dims[1]);
        } };
    switch (a.type) { case F64: go(0.0); break; case I32: go((int32_t)0); break; case I64: go((int64_t)0); break; case U32: go((uint32_t)0); break; case U64: go((uint64_t)0); break; case STR: f->WriteString(a.name,a.s); break; }
}
inline size_t prod(const std::vector<sfilesize_t>& d) { size_t n=1; for (auto x : d) n*=x; return n; }
inline Var numVar(const std::string& n, Type t, std::vector<sfilesize_t> dims, const std::vector<Val>& pool, size_t off=0) { Var a; a.name=n; a.type=t; a.dims=dims; for (size_t k=0;k<prod(dims);k++) a.v.push_back(pool[(off+k)%pool.size()]); return a; }
inline Var strVar(const std::string& n, const std::string& s) { Var a; a.name=n; a.type=STR; a.s=s; return a; }
inline void checkAll(mc::Ctx& c, SFile *f, int fmt, const File& m, bool rev=false) {
    std::vector<Held> held; std::vector<std::string> names; for (auto& v : m.var) names.push_back(v.first); if (rev) std::reverse(names.begin(),names.end());
    for (auto& n : names) { const Var& a=m.var.at(n); static const int two[5]={R_D2,R_I32_2,R_I64_2,R_U32_2,R_U64_2}, one[5]={R_D1,R_I32_1,R_I64_1,R_U32_1,R_U64_1}, sc[5]={R_SCAL,R_I32,R_I64,R_U32,R_U64};
        doRead(c,f,fmt,m,n,R_HAS,held); doRead(c,f,fmt,m,n,R_TYPE,held);
        if (a.type==STR) { doRead(c,f,fmt,m,n,R_STR,held); continue; }
        if (a.is2d()) { doRead(c,f,fmt,m,n,two[a.type],held); if (a.type!=F64) doRead(c,f,fmt,m,n,R_INTARR,held); if (a.vec()) { doRead(c,f,fmt,m,n,one[a.type],held); if (a.type!=F64) doRead(c,f,fmt,m,n,R_INTLIST,held); doRead(c,f,fmt,m,n,R_LIST,held); } if (a.scalar()) { doRead(c,f,fmt,m,n,sc[a.type],held); if (a.type!=F64) doRead(c,f,fmt,m,n,R_INT,held); } }
        if (fmt!=SDT) { doRead(c,f,fmt,m,n,R_MULTI,held); doRead(c,f,fmt,m,n,R_MULTIP,held); }
    }
    for (auto& a : m.att) readAttr(c,f,fmt,m,a.first.first,a.first.second,a.second.isStr);
    for (auto& h : held) c.require(h.intact(),"a returned buffer changed"); for (auto& h : held) h.free();
}
inline std::string slurp(const std::string& p) { std::string s; FILE *f=fopen(p.c_str(),"rb"); if (!f) return "<none>"; char b[4096]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
inline void spit(const std::string& p, const std::string& s) { FILE *f=fopen(p.c_str(),"wb"); fwrite(s.data(),1,s.size(),f); fclose(f); }
inline mc::u64 hashVar(const Var& a) { mc::u64 h=mc::hstr(a.name); h=mc::mix(h,a.type); for (auto d : a.dims) h=mc::mix(h,d); for (auto& v : a.v) h=mc::mix(mc::mix(h,mc::hdbl(v.d)),(mc::u64)v.i); return mc::hstr(a.s,h); }
inline std::string describe(const Var& a) { if (a.type==STR) return a.name+"="+mc::show(a.s); std::string s=a.name+":"+TN[a.type]+"["; for (auto d : a.dims) s+=mc::fmt("%llu ",(unsigned long long)d); s+="]={"; for (auto& v : a.v) s+= a.type==F64? mc::fmt("%.17g ",v.d) : mc::fmt("%lld ",(long long)v.i); return s+"}"; }
inline std::vector<Val> pool(Type t, int fmt) {
    std::vector<Val> p; auto D=[&](std::initializer_list<double> l){ for (double d : l) { Val v; v.d=d; p.push_back(v); } }; auto I=[&](std::initializer_list<__int128> l){ for (__int128 i : l) { Val v; v.i=i; p.push_back(v); } };
    double inf=std::numeric_limits<double>::infinity(), nan=std::numeric_limits<double>::quiet_NaN(); __int128 o=1;
    if (t==F64) D({0.1,-0.0,1.0/3,1.7976931348623157e308,2.2250738585072014e-308,4.9406564584124654e-324,-1.2345678901234567e-310,9007199254740993.0,inf,-inf,nan,3.141592653589793,1e22,-123456789.12345679,0.0,1e-5,100000,1234567,2147483647.0,-16777217.0});
    else if (t==I32) I({0,1,-1,2147483647,-(o<<31),65536,-12345});
    else if (t==U32) I({0,1,4294967295LL,2147483648LL,65536,7});
    else if (t==I64) { if (fmt==SDT) I({0,1,-1,o<<53,-(o<<53),(o<<53)-1,2147483648LL,-123456789012345LL}); else I({0,1,-1,(o<<63)-1,-(o<<63),(o<<53)+1,-(o<<53)-1,123456789012345678LL}); }
    else { if (fmt==SDT) I({0,1,o<<53,(o<<53)-1,4294967296LL}); else I({0,1,(o<<64)-1,o<<63,(o<<53)+1,4294967296LL}); }
    return p;
}
} // namespace sf
