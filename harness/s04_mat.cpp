/* S04: MATLAB header on every date (controlled clock) and class tags of every kind of variable. */
#include <sys/time.h>
#include "sfileref.h"
#include <hdf5.h>
using namespace std; using namespace sf;
static long long g_now=1000000000; static bool g_fake=false;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) { if (g_fake && (id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE)) { t->tv_sec=g_now; t->tv_nsec=500000000; return 0; } return syscall(SYS_clock_gettime,id,t); }
extern "C" time_t time(time_t *p) { if (g_fake) { if (p) *p=g_now; return g_now; } struct timespec t; syscall(SYS_clock_gettime,CLOCK_REALTIME,&t); if (p) *p=t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(struct timeval *tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }

static long long daysFromCivil(long long y, int m, int d) { y-= m<=2; long long era=(y>=0?y:y-399)/400; unsigned yoe=(unsigned)(y-era*400), doy=(153*(m+(m>2?-3:9))+2)/5+d-1, doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(long long)doe-719468; }
static string header(mc::Ctx& c, const string& b, const string& date) {
    c.require(b.size()>512+8,"file is only %zu bytes long",b.size()); string h=b.substr(0,116);
    c.require(h.compare(0,31,"MATLAB 7.3 MAT-file, Platform: ")==0,"header starts with %s",mc::show(h.substr(0,40)).c_str());
    c.require(h.find("Created on: "+date+" HDF5 schema 1.00 .")!=string::npos,"header %s does not say '%s'",mc::show(h).c_str(),date.c_str());
    { string rest=h.substr(h.find("1.00 .")+6); c.require(rest.find_first_not_of(' ')==string::npos,"the header text is followed by %s",mc::show(rest).c_str()); }
    for (char ch : h) c.require(ch>=32&&ch<127,"header contains a control character: %s",mc::show(h).c_str());
    c.require(b.compare(116,12,string("\0\0\0\0\0\0\0\0\0\x02IM",12))==0,"version and endian marks are wrong: %s",mc::show(b.substr(116,12)).c_str());
    c.require(b.compare(512,8,"\x89HDF\r\n\x1a\n")==0,"no HDF5 signature behind the user block"); return h;
}
static void dates(mc::Ctx& c) {
    static const vector<int> Y={1970,1999,2000,2023,2024,2026,2038,2100}; static const vector<array<int,3>> T={{0,0,0},{12,34,56},{23,59,59},{9,5,3}}; static const char *tz[3]={"UTC0","AAA-5:30","BBB11"}; static const int off[3]={0,19800,-39600};
    int mon=1+c.pick(12), y=c.pickOf(Y), day= c.pick(6); static const int D[6]={1,2,9,10,28,99}; static const int ML[12]={31,28,31,30,31,30,31,31,30,31,30,31}; int last=ML[mon-1]+(mon==2&&((y%4==0&&y%100!=0)||y%400==0)); int d= D[day]==99? last : D[day]; auto t=c.pickOf(T); int z=c.pick(c.thorough?3:2);
    long long days=daysFromCivil(y,mon,d), now=days*86400+t[0]*3600+t[1]*60+t[2]-off[z]; if (now<0) return;
    static const char *W[7]={"Thu","Fri","Sat","Sun","Mon","Tue","Wed"}, *M[12]={"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
    string date=mc::fmt("%s %s %02d %02d:%02d:%02d %d",W[((days%7)+7)%7],M[mon-1],d,t[0],t[1],t[2],y); c.note(date+" "+tz[z]);
    setenv("TZ",tz[z],1); tzset(); g_now=now; g_fake=true; string p=c.scratch+"/h.mat"; SFile *f=nullptr; Outcome o=guarded(c,"create",[&]{ f=SFile::Create(p,SFILE_MODE_WRITE); }); g_fake=false;
    c.require(o==VALUE,"creating a file on %s fails",date.c_str()); c.step(); double x=1.5; f->WriteList("x",&x,1); f->Close(); delete f;
    string h=header(c,slurp(p),date); SFile *u=SFile::Create(p,SFILE_MODE_UPDATE); c.require(u->GetScalar("x")==1.5,"content lost"); u->WriteString("s","abc"); u->Close(); delete u; c.require(slurp(p).substr(0,128).compare(0,116,h)==0,"updating changed the header"); header(c,slurp(p),date);
    u=SFile::Create(p,SFILE_MODE_READ); c.require(u->GetScalar("x")==1.5 && u->GetString("s")=="abc","content lost after update"); u->Close(); delete u; c.step(); c.state(mc::hstr(date));
}
static string attrStr(hid_t f, const string& obj, const char *name) { hid_t o=H5Oopen(f,obj.c_str(),H5P_DEFAULT); if (o<0) return "<no object>"; string r="<none>"; if (H5Aexists(o,name)>0) { hid_t a=H5Aopen(o,name,H5P_DEFAULT), t=H5Aget_type(a); if (H5Tget_class(t)==H5T_STRING && H5Tis_variable_str(t)<=0) { size_t n=H5Tget_size(t); string b(n,'\0'); H5Aread(a,t,&b[0]); while (!b.empty()&&b.back()=='\0') b.pop_back(); r=b; } else { int v=-1; H5Aread(a,H5T_NATIVE_INT,&v); r=mc::fmt("%d",v); } H5Tclose(t); H5Aclose(a); } H5Oclose(o); return r; }
static void tags(mc::Ctx& c) {
    struct K { Type t; vector<sfilesize_t> d; int form; }; static vector<K> KS; if (KS.empty()) { for (int t=0;t<5;t++) for (auto& d : vector<vector<sfilesize_t>>{{1},{4},{1,1},{2,3},{3,3},{2,2,2},{1,2,3,1}}) for (int f=0;f<3;f++) KS.push_back({(Type)t,d,f}); }
    int L=c.thorough?2:1; vector<string> exp, nm; bool grp=c.flip(), upd=c.flip(); string p=c.scratch+"/k.mat"; unique_ptr<SFile> f(SFile::Create(p,SFILE_MODE_WRITE)); string pre=grp?"st/":""; if (grp) f->CreateStruct("st");
    if (upd) { f->Close(); f.reset(SFile::Create(p,SFILE_MODE_UPDATE)); }
    for (int i=0;i<L;i++) { int k=c.pick((int)KS.size()+4); string n=pre+"v"+to_string(i);
        if (k<(int)KS.size()) { Var a=numVar(n,KS[k].t,KS[k].d,pool(KS[k].t,MAT)); writeVar(f.get(),a,KS[k].form); nm.push_back(n); exp.push_back(TN[a.type]); c.note(describe(a)+mc::fmt(" form %d",KS[k].form)); }
        else if (k==(int)KS.size()) { f->WriteString(n,"hello"); nm.push_back(n); exp.push_back("char"); c.note("string"); } else if (k==(int)KS.size()+1) { f->WriteScalar(n,1.0); nm.push_back(n); exp.push_back("double"); c.note("scalar"); }
        else if (k==(int)KS.size()+2) { f->WriteScalar(n,1.0); f->WriteAttribute_scalar(n,"a",2.0); nm.push_back(n+"_a"); exp.push_back("double"); c.note("scalar attribute"); } else { f->WriteScalar(n,1.0); f->WriteAttribute_string(n,"a","xy"); nm.push_back(n+"_a"); exp.push_back("char"); c.note("string attribute"); }
        c.step(); }
    f->Close(); f.reset(); hid_t h=H5Fopen(p.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); vector<string> got; for (auto& n : nm) got.push_back(attrStr(h,n,"MATLAB_class")); string st= grp? attrStr(h,"st","MATLAB_class") : "struct"; vector<string> dec; for (size_t i=0;i<nm.size();i++) dec.push_back(exp[i]=="char"? attrStr(h,nm[i],"MATLAB_int_decode") : "2"); H5Fclose(h);
    for (size_t i=0;i<nm.size();i++) { c.require(got[i]==exp[i],"%s is tagged '%s', not '%s'",nm[i].c_str(),got[i].c_str(),exp[i].c_str()); c.require(dec[i]=="2","%s has MATLAB_int_decode %s",nm[i].c_str(),dec[i].c_str()); c.state(mc::hstr(exp[i])); } c.require(st=="struct","the struct is tagged '%s'",st.c_str());
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr); H5::Exception::dontPrint();
    return mc::run(argc, argv, "S04", {
        {"dates", dates, 2, "12 months x 8 years (leap, century, pre/post 2038) x 6 days x 4 times x 2 (thorough 3) time zones on a controlled clock"},
        {"tags", tags, 2, "every variable kind: 5 element types x 7 shapes x 3 write interfaces, strings, scalars, attributes; in a struct or not, written or updated (thorough: all pairs)"},
    });
}
