/* S05: HDF5 and MATLAB files as other producers write them (any byte order, width, layout, string flavour), built with libhdf5 directly. */
#include "sfileref.h"
#include <hdf5.h>
using namespace std; using namespace sf;
struct St { const char *name; hid_t file, mem; int lo, hi; bool fl; int exact; };   // exact: the Type the library itself would use, or -1
static vector<St>& types() { static vector<St> v; if (v.empty()) { auto A=[&](const char *n, hid_t f, hid_t m, int lo, int hi, bool fl, int ex){ v.push_back({n,f,m,lo,hi,fl,ex}); };
    A("f64le",H5T_IEEE_F64LE,H5T_NATIVE_DOUBLE,-1,1,true,F64); A("f64be",H5T_IEEE_F64BE,H5T_NATIVE_DOUBLE,-1,1,true,-1); A("f32le",H5T_IEEE_F32LE,H5T_NATIVE_DOUBLE,-1,1,true,-1); A("f32be",H5T_IEEE_F32BE,H5T_NATIVE_DOUBLE,-1,1,true,-1);
    A("i8",H5T_STD_I8LE,H5T_NATIVE_LLONG,-8,7,false,-1); A("i16le",H5T_STD_I16LE,H5T_NATIVE_LLONG,-16,15,false,-1); A("i16be",H5T_STD_I16BE,H5T_NATIVE_LLONG,-16,15,false,-1); A("i32le",H5T_STD_I32LE,H5T_NATIVE_LLONG,-32,31,false,I32); A("i32be",H5T_STD_I32BE,H5T_NATIVE_LLONG,-32,31,false,-1); A("i64le",H5T_STD_I64LE,H5T_NATIVE_LLONG,-62,62,false,I64); A("i64be",H5T_STD_I64BE,H5T_NATIVE_LLONG,-62,62,false,-1);
    A("u8",H5T_STD_U8LE,H5T_NATIVE_LLONG,0,8,false,-1); A("u16le",H5T_STD_U16LE,H5T_NATIVE_LLONG,0,16,false,-2); A("u16be",H5T_STD_U16BE,H5T_NATIVE_LLONG,0,16,false,-1); A("u32le",H5T_STD_U32LE,H5T_NATIVE_LLONG,0,32,false,U32); A("u32be",H5T_STD_U32BE,H5T_NATIVE_LLONG,0,32,false,-1); A("u64le",H5T_STD_U64LE,H5T_NATIVE_LLONG,0,62,false,U64); A("u64be",H5T_STD_U64BE,H5T_NATIVE_LLONG,0,62,false,-1); } return v; }
static const char *LAY[4]={"contiguous","compact","chunked","compressed"};
static hid_t createFile(const string& p, int fmt) { hid_t fc=H5Pcreate(H5P_FILE_CREATE); if (fmt==MAT) H5Pset_userblock(fc,512); hid_t f=H5Fcreate(p.c_str(),H5F_ACC_TRUNC,fc,H5P_DEFAULT); H5Pclose(fc); return f; }
static void putData(hid_t f, const string& name, hid_t ft, hid_t mt, const vector<hsize_t>& d, int lay, const void *data) {
    hid_t sp= d.empty()? H5Screate(H5S_SCALAR) : H5Screate_simple((int)d.size(),d.data(),nullptr), pl=H5Pcreate(H5P_DATASET_CREATE), lc=H5Pcreate(H5P_LINK_CREATE); H5Pset_create_intermediate_group(lc,1);
    if (lay==1) H5Pset_layout(pl,H5D_COMPACT); if (lay>=2) { vector<hsize_t> ch=d; for (auto& x : ch) x= x>2?2:x; H5Pset_chunk(pl,(int)d.size(),ch.data()); if (lay==3) { H5Pset_shuffle(pl); H5Pset_deflate(pl,6); } }
    hid_t ds=H5Dcreate2(f,name.c_str(),ft,sp,lc,pl,H5P_DEFAULT); if (data) H5Dwrite(ds,mt,H5S_ALL,H5S_ALL,H5P_DEFAULT,data); H5Dclose(ds); H5Sclose(sp); H5Pclose(pl); H5Pclose(lc);
}
/* numbers: every element type x shape x storage layout x position in the file x value pattern */
static void numbers(mc::Ctx& c) {
    auto& T=types(); const St& t=T[c.pick((int)T.size())]; static const vector<vector<sfilesize_t>> SH={{1},{4},{1,1},{1,3},{3,1},{2,3},{3,3},{2,2,2},{1,3,1},{2,1,2,2}}; auto sh=c.pickOf(SH); int lay=c.pick(4), fmt=c.pick(2); bool grp=c.flip(); int off=c.pick(c.thorough?4:2);
    string n= grp? "g/h/x" : "x"; c.note(mc::fmt("%s %s %s %zu dimensions",EXT[fmt],t.name,LAY[lay],sh.size()));
    vector<Val> P; if (t.fl) for (double d : {0.5,-2.25,3.0,1048577.0,-0.0,7.0,-1024.0}) { Val v; v.d=d; P.push_back(v); } else { __int128 hi=((__int128)1<<t.hi)-1, lo= t.lo<0? -((__int128)1<<-t.lo)/(t.lo==-62?1:2) : 0; if (t.lo==-8) { lo=-128; hi=127; } for (__int128 i : {(__int128)3,lo,hi,(__int128)0,(__int128)1,(__int128)(t.lo<0?-1:2),hi-1,(__int128)100}) { Val v; v.i=i; P.push_back(v); } }
    Var a=numVar(n,t.fl?F64:I64,sh,P,off*3); if (!t.fl && t.exact>=0) a.type=(Type)t.exact;
    string p=c.scratch+"/f."+EXT[fmt]; vector<hsize_t> d(sh.begin(),sh.end()); hid_t f=createFile(p,fmt); if (t.fl) { vector<double> b; for (auto& v : a.v) b.push_back(v.d); putData(f,n,t.file,t.mem,d,lay,b.data()); } else { vector<long long> b; for (auto& v : a.v) b.push_back((long long)v.i); putData(f,n,t.file,t.mem,d,lay,b.data()); } H5Fclose(f);
    File m; m.var[n]=a; unique_ptr<SFile> s(SFile::Create(p,SFILE_MODE_READ)); vector<Held> held;
    for (int r=0;r<NREAD;r++) {
        if (t.exact<0 && (r==R_TYPE||r==R_INTARR||r==R_INTLIST||r==R_INT||r==R_STR)) { // widths the library has no name for: the value or a file exception, never a wrong value
            string w=mc::fmt("%s(%s)",RN[r],t.name); c.step();
            if (r==R_TYPE) { SFile::sfile_data_type k=SFile::SFILE_DATA_UNDEFINED; guarded(c,w,[&]{ k=s->GetDataType(n); }); c.require(k!=SFile::SFILE_DATA_DOUBLE||t.fl,"%s: integers are called double",w.c_str()); c.require(k!=SFile::SFILE_DATA_STRING||t.exact==-2,"%s: numbers are called a string",w.c_str()); c.require(!(t.fl && k!=SFile::SFILE_DATA_DOUBLE && k!=SFile::SFILE_DATA_UNDEFINED),"%s: type %d",w.c_str(),(int)k); continue; }
            if (r==R_STR) { string x; Outcome o=guarded(c,w,[&]{ x=s->GetString(n); }); if (t.exact!=-2||fmt!=MAT) c.require(o==SFEXC,"%s: numbers are read as a string",w.c_str()); continue; }
            if (r==R_INTARR) { sfilesize_t dd[2]; int64_t **q=nullptr; if (guarded(c,w,[&]{ q=s->GetIntArray(n,dd); })==VALUE) { c.require(a.is2d()&&dd[0]==a.rows()&&dd[1]==a.cols(),"%s: size",w.c_str()); for (size_t k=0;k<a.n();k++) { bool ok; int64_t e=as<int64_t>(a,k,ok); if (ok) c.require(q[0][k]==e,"%s: element %zu",w.c_str(),k); } delete[] q[0]; delete[] q; } }
            else if (r==R_INTLIST) { sfilesize_t dd; int64_t *q=nullptr; if (guarded(c,w,[&]{ q=s->GetIntList(n,&dd); })==VALUE) { c.require(a.is2d()&&dd==a.n(),"%s: length",w.c_str()); for (size_t k=0;k<a.n();k++) { bool ok; int64_t e=as<int64_t>(a,k,ok); if (ok) c.require(q[k]==e,"%s: element %zu",w.c_str(),k); } delete[] q; } }
            else { int64_t q=0; if (guarded(c,w,[&]{ q=s->GetInt(n); })==VALUE) { bool ok; int64_t e=as<int64_t>(a,0,ok); c.require(a.scalar(),"%s: not a scalar",w.c_str()); if (ok) c.require(q==e,"%s",w.c_str()); } }
            continue; }
        doRead(c,s.get(),fmt,m,n,r,held); }
    for (auto& h : held) { c.require(h.intact(),"a returned buffer changed"); h.free(); } s->Close(); c.state(mc::mix(mc::mix(mc::hstr(t.name),lay*2+fmt),mc::hstr(describe(a))));
}
/* strings and string attributes in every flavour */
static const vector<string>& texts() { static const vector<string> v={"a","hello","two words","x=1; {y}","tail "}; return v; }
static hid_t strType(int flavour, size_t len) { // 0,1: variable length ascii/utf8; 2..4: fixed length, longer than the text, terminated / zero padded / blank padded; 5: fixed, exact
    hid_t t=H5Tcopy(H5T_C_S1); if (flavour<=1) { H5Tset_size(t,H5T_VARIABLE); if (flavour==1) H5Tset_cset(t,H5T_CSET_UTF8); } else { H5Tset_size(t,flavour==5?len:len+3); H5Tset_strpad(t,flavour==2?H5T_STR_NULLTERM:flavour==4?H5T_STR_SPACEPAD:H5T_STR_NULLPAD); } return t; }
static const char *FL[9]={"variable ascii","variable utf8","fixed terminated","fixed zero padded","fixed blank padded","fixed exact","single characters","16-bit units","16-bit units, big endian"};
static string rtrim(string s) { while (!s.empty()&&s.back()==' ') s.pop_back(); return s; }
static void strings(mc::Ctx& c) {
    int fmt=c.pick(2), fl=c.pick(9); string s=c.pickOf(texts()); int shape=c.pick(3), lay=c.pick(4); bool grp=c.flip(); string n=grp?"g/s":"s", p=c.scratch+"/s."+EXT[fmt]; c.note(mc::fmt("%s %s shape %d %s ",EXT[fmt],FL[fl],shape,LAY[lay])+mc::show(s));
    hid_t f=createFile(p,fmt); size_t L=s.size(); vector<hsize_t> d;
    if (fl<=5) { if (shape==0 && lay>=2) { H5Fclose(f); return; } if (shape==1) d={1}; if (shape==2) d={1,1}; hid_t t=strType(fl,L); const char *q=s.c_str(); if (fl<=1) putData(f,n,t,t,d,lay,&q); else { string b=s; b.resize(H5Tget_size(t),fl==4?' ':'\0'); putData(f,n,t,t,d,lay,b.data()); } H5Tclose(t); }
    else { d= shape==0? vector<hsize_t>{L} : shape==1? vector<hsize_t>{L,1} : vector<hsize_t>{1,L}; if (fl==6) putData(f,n,H5T_C_S1,H5T_C_S1,d,lay,s.data()); else { vector<unsigned short> u(s.begin(),s.end()); putData(f,n,fl==7?H5T_STD_U16LE:H5T_STD_U16BE,H5T_NATIVE_USHORT,d,lay,u.data()); } }
    H5Fclose(f); unique_ptr<SFile> r(SFile::Create(p,SFILE_MODE_READ)); string got; for (int k=0;k<2;k++) { got.clear(); Outcome o=guarded(c,"GetString",[&]{ got=r->GetString(n); }); c.step();
        bool must= fl!=8 && (fl!=7||fmt==MAT) && !(fmt==MAT&&d.empty()); if (must) c.require(o==VALUE,"a %s string is refused",FL[fl]); if (o==VALUE) c.require(fl==4? rtrim(got)==rtrim(s) : got==s,"a %s string is read as %s, not %s",FL[fl],mc::show(got).c_str(),mc::show(s).c_str()); }
    c.require(r->HasVariable(n),"the string does not exist"); sfilesize_t dd[2]; double **q=nullptr; if (fl<=6) { c.require(guarded(c,"GetDoubles",[&]{ q=r->GetDoubles(n,dd); })==SFEXC,"a string is read as numbers"); }
    r->Close(); c.state(mc::mix(mc::hstr(s),fl*100+shape*10+lay));
}
/* character matrices, lists of strings, empty and null variables, records: a string or a file exception, never memory the library does not own */
static void oddities(mc::Ctx& c) {
    static const char *K[13]={"16-bit 2x3","16-bit 3x2","16-bit 0x0","16-bit 0x5","16-bit 5x0","16-bit 2x2x2","list of variable strings","list of fixed strings","null dataspace","record","boolean","link to nowhere","empty list of variable strings"};
    int fmt=c.pick(2), k=c.pick(13); string n="x", p=c.scratch+"/o."+EXT[fmt]; c.note(mc::fmt("%s %s",EXT[fmt],K[k])); hid_t f=createFile(p,fmt); string all="abcdefgh"; vector<unsigned short> u(all.begin(),all.end()); size_t total=0;
    auto U=[&](vector<hsize_t> d){ total=1; for (auto x : d) total*=x; putData(f,n,H5T_STD_U16LE,H5T_NATIVE_USHORT,d,0,u.data()); };
    switch (k) { case 0: U({2,3}); break; case 1: U({3,2}); break; case 2: U({0,0}); break; case 3: U({0,5}); break; case 4: U({5,0}); break; case 5: U({2,2,2}); break;
        case 6: { hid_t t=strType(0,0); const char *q[40]; for (auto& x : q) x="abc"; putData(f,n,t,t,{40},0,q); H5Tclose(t); } break; case 7: { hid_t t=strType(5,3); putData(f,n,t,t,{2},0,"abcdef"); H5Tclose(t); } break;
        case 8: { hid_t sp=H5Screate(H5S_NULL), ds=H5Dcreate2(f,"x",H5T_IEEE_F64LE,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Dclose(ds); H5Sclose(sp); } break;
        case 9: { hid_t t=H5Tcreate(H5T_COMPOUND,16); H5Tinsert(t,"a",0,H5T_NATIVE_DOUBLE); H5Tinsert(t,"b",8,H5T_NATIVE_DOUBLE); double b[4]={1,2,3,4}; putData(f,n,t,t,{2},0,b); H5Tclose(t); } break;
        case 10: { hid_t t=H5Tenum_create(H5T_NATIVE_INT8); signed char z=0,o=1; H5Tenum_insert(t,"FALSE",&z); H5Tenum_insert(t,"TRUE",&o); signed char b[2]={1,0}; putData(f,n,t,t,{2},0,b); H5Tclose(t); } break;
        case 11: H5Lcreate_soft("/nowhere",f,"x",H5P_DEFAULT,H5P_DEFAULT); break;
        case 12: { hid_t t=strType(0,0); putData(f,n,t,t,{0},0,nullptr); H5Tclose(t); } break; }
    { double one=1.5; putData(f,"y",H5T_IEEE_F64LE,H5T_NATIVE_DOUBLE,{1},0,&one); } H5Fclose(f);
    unique_ptr<SFile> r(SFile::Create(p,SFILE_MODE_READ)); string s; Outcome o=guarded(c,"GetString",[&]{ s=r->GetString(n); }); c.step();
    if (k<=5 && fmt==MAT && o==VALUE) c.require(s.size()==total && is_permutation(s.begin(),s.end(),all.begin()),"a matrix of %zu characters is read as %s",total,mc::show(s).c_str()); if (k<=5 && fmt==HDF) c.require(o==SFEXC,"numbers are read as a string");
    if (k==6 && o==VALUE) c.require(s=="abc","a list of strings is read as %s",mc::show(s).c_str()); if (k==12) { if (o==VALUE) c.require(s.empty(),"an empty list of strings is read as %s",mc::show(s).c_str()); } else if (k>=8) c.require(o==SFEXC,"GetString of a %s succeeds",K[k]);
    sfilesize_t d[2]={0,0}, nd=0, dm[4]={0,0,0,0}; double **q=nullptr, *l=nullptr; 
    if (guarded(c,"GetDoubles",[&]{ q=r->GetDoubles(n,d); })==VALUE) { c.require(k<=4||k==10,"%s is read as numbers",K[k]); delete[] q[0]; delete[] q; } c.step();
    if (guarded(c,"GetDoubles1D",[&]{ l=r->GetDoubles1D(n,d); })==VALUE) { c.require(k<=4||k==10,"%s is read as numbers",K[k]); delete[] l; } l=nullptr; c.step();
    if (guarded(c,"GetMultiArray_linear",[&]{ l=r->GetMultiArray_linear(n,4,nd,dm); })==VALUE) { c.require(k<=5||k==8||k==10,"%s is read as numbers",K[k]); delete[] l; } c.step();
    double x=0; c.require(guarded(c,"GetScalar",[&]{ x=r->GetScalar(n); })==SFEXC,"%s is read as a scalar",K[k]); c.require(r->HasVariable(n)==(k!=11),"HasVariable"); c.require(r->GetScalar("y")==1.5,"the next variable is unreadable"); r->Close(); c.state(mc::mix(fmt,k));
}
/* attributes of HDF5 datasets */
static void attributes(mc::Ctx& c) {
    static const vector<string> N={"f64le","f32be","i8","i16be","i32le","i64be","u16le","u64le"}; int k=c.pick((int)N.size()+6); int shape=c.pick(4); string s=c.pickOf(texts()); string p=c.scratch+"/a.h5"; hid_t f=createFile(p,HDF); double one=1; putData(f,"x",H5T_IEEE_F64LE,H5T_NATIVE_DOUBLE,{1},0,&one); hid_t ds=H5Dopen2(f,"x",H5P_DEFAULT);
    hsize_t d[2]={1,1}; if (shape==3) d[0]=40; hid_t sp= shape==0? H5Screate(H5S_SCALAR) : shape==2? H5Screate_simple(2,d,nullptr) : H5Screate_simple(1,d,nullptr); bool num=k<(int)N.size(); int fl=k-(int)N.size();
    if (num && s!=texts()[0]) { H5Dclose(ds); H5Sclose(sp); H5Fclose(f); return; }
    c.note(mc::fmt("%s attribute, shape %d ",num?N[k].c_str():FL[fl],shape)+(num?"":mc::show(s)));
    if (num) { const St *t=nullptr; for (auto& x : types()) if (N[k]==x.name) t=&x; hid_t a=H5Acreate2(ds,"q",t->file,sp,H5P_DEFAULT,H5P_DEFAULT); double v[40]={42,43}; H5Awrite(a,H5T_NATIVE_DOUBLE,v); H5Aclose(a); }
    else { hid_t t=strType(fl,s.size()), a=H5Acreate2(ds,"q",t,sp,H5P_DEFAULT,H5P_DEFAULT); const char *q[40]; for (auto& x : q) x=s.c_str(); string b=s; if (fl>1) { b.resize(H5Tget_size(t),fl==4?' ':'\0'); string e=b; for (int i=1;i<40;i++) b+=e; } H5Awrite(a,t,fl<=1?(const void*)q:(const void*)b.data()); H5Aclose(a); H5Tclose(t); }
    H5Sclose(sp); H5Dclose(ds); H5Fclose(f); unique_ptr<SFile> r(SFile::Create(p,SFILE_MODE_READ)); double x=0; string g; Outcome on=guarded(c,"GetAttributeScalar",[&]{ x=r->GetAttributeScalar("x","q"); }), os=guarded(c,"GetAttributeString",[&]{ g=r->GetAttributeString("x","q"); }); c.step();
    if (num) { c.require(os==SFEXC,"a number is read as a string"); if (shape<3) c.require(on==VALUE && x==42,"a %s attribute of 42 is read as %g",N[k].c_str(),x); else c.require(on==SFEXC,"a list is read as a scalar"); }
    else { c.require(on==SFEXC,"a string is read as a number"); if (shape<3) { c.require(os==VALUE,"a %s attribute is refused",FL[fl]); c.require(fl==4? rtrim(g)==rtrim(s) : g==s,"a %s attribute is read as %s, not %s",FL[fl],mc::show(g).c_str(),mc::show(s).c_str()); } else if (os==VALUE) c.require(g.compare(0,s.size(),s)==0,"a list of strings is read as %s",mc::show(g).c_str()); }
    c.require(r->GetScalar("x")==1,"the dataset is unreadable"); r->Close(); c.state(mc::mix(k,shape*8+s.size()));
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr); H5::Exception::dontPrint(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); types();
    return mc::run(argc, argv, "S05", {
        {"numbers", numbers, 3, "18 stored element types (4 float, 14 integer, both byte orders) x 10 shapes of 1-4 dimensions x 4 storage layouts x 2 file kinds x in a group or not x 2 (thorough 4) value patterns; all 25 read functions on each"},
        {"strings", strings, 3, "9 string flavours x 3 shapes x 4 layouts x 5 texts x 2 file kinds x in a group or not, each read twice"},
        {"oddities", oddities, 1, "13 unusual variables (character matrices, lists of strings, empty, null, record, boolean, dangling link) x 2 file kinds x 6 read functions"},
        {"attributes", attributes, 2, "8 numeric and 6 string flavours of attributes x 4 shapes x 5 texts"},
    });
}
