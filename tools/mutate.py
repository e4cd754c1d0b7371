#!/usr/bin/env python3
"""Mutation campaign: small changes of single lines of the library, run against the checks of the properties anchored there.
usage: mutate.py OUT.jsonl WORKERS FRACTION SEED [file-substring]      (scratch: /tmp/mw; never touches /repo)"""
import sys, os, re, json, random, subprocess, shutil, time, threading, queue
V=os.environ.get('VERIF','/tmp/rc/verif'); SRC=os.environ.get('VERIF_REPO','/repo'); W='/tmp/mw'
sys.path.insert(0,V)
import check as CK
from checks import CHECKS
C='src/Configuration/'; S='src/SFile/'; M='src/MagneticField/'; D='src/DistributionFunction/'; H='include/softlib/'
FILES={
 C+'Script/Lexer.cpp':['C01','C02'], C+'Script/Interpreter.cpp':['C01','C02'], C+'Script/ConfigurationScript.cpp':['C02','C01'], C+'ConfigBlock.cpp':['C03','C01'], C+'Configuration.cpp':['C03','C01','C02'], C+'Setting.cpp':['C04','C03'], C+'Script/SettingScript.cpp':['C04','C03','C01'],
 S+'SFile.cpp':['S02','S01','S03'], S+'SFile_SDT.cpp':['S02','S01','S03'], S+'SFile_SDT.load.cpp':['S01','S03'], S+'SFile_HDF5.cpp':['S01','S02','S03','S04'], S+'SFile_MAT.HDF5.cpp':['S04','S01','S02'], H+'SFile.h':['S02','S01'],
 M+'MagneticField2D.cpp':['M01','M02','M03'], M+'MagneticFieldNumeric2D.cpp':['M03','M04','K01'], M+'MagneticFieldAnalytical2D.cpp':['M05','K01'], M+'MagneticFieldAnalytical2D.q.cpp':['M05'], M+'MagneticFieldLUKE.cpp':['M06'], H+'MagneticField/MagneticField2D.h':['M01','M02'],
 H+'Integrator/Integrator.tcc':['I01'], H+'Integrator/RungeKutta.tcc':['I01'], H+'Integrator/RKDP45.tcc':['I01'], 'src/Integration/PeakedIntegration.cpp':['I02'],
 D+'NumericMomentumSpaceDistributionFunction.cpp':['D01','D02','K01'], D+'NumericDistributionFunction.cpp':['D02','K01'], D+'CODEDistributionFunction.cpp':['D03','D04','K01'], D+'GOCODEDistributionFunction.cpp':['D03','D04','K01'],
 D+'SOFTDistributionFunction.cpp':['D04'], D+'deprSOFTDistributionFunction.cpp':['D04'], D+'LUKEDistributionFunction.cpp':['D04'], D+'DREAMDistributionFunction.cpp':['D04'], D+'AnalyticalAvalanche.cpp':['D05'], D+'ConnorHastieDistribution.cpp':['D05'], D+'ExponentialPitch.cpp':['D05'], D+'BesselRadialProfile.cpp':['D05'], D+'GaussianRadialProfile.cpp':['D05'], D+'LinearRadialProfile.cpp':['D05'], D+'PowerRadialProfile.cpp':['D05'], D+'RadialDistributionFunction.cpp':['D05','K01'], D+'MomentumSpaceDistributionFunction.cpp':['D05'], D+'UnitDistributionFunction.cpp':['D05'],
 'src/General/ProgressTracker.cpp':['G03'], 'src/General/Timer.cpp':['G02','G03'], 'src/General/SOFTLibException.cpp':['G05'], 'src/General/Vector.cpp':['G04'], H+'General/Vector.tcc':['G04'], H+'General/Matrix.tcc':['G04'],
 'src/ImageGenerator/ImageGenerator.cpp':['G01'], 'src/ImageGenerator/ImageGeneratorPNG.cpp':['G01'], 'src/ImageGenerator/ImageGeneratorPPM.cpp':['G01'], H+'ImageGenerator/ImageColormap.h':['G01'], H+'ImageGenerator/ImageGenerator.h':['G01'],
}
def gen(f, text):
    out=[]; inblock=False
    for n,l in enumerate(text.split('\n')):
        s=l.strip()
        if inblock:
            if '*/' in s: inblock=False
            continue
        if s.startswith('/*'):
            if '*/' not in s: inblock=True
            continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('using ') or s.startswith('template'): continue
        code=re.sub(r'//.*$','',l)
        spans=[(m.start(),m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"',code)]
        def instr(i): return any(a<=i<b for a,b in spans)
        def add(op,new):
            if new!=l: out.append((f,n,op,l,new))
        for pat,reps in [(r'(?<![<>=!\-+*/&|:])<(?![<=])(?=\s)',['<=','>']),(r'(?<![<>=!\-])>(?![>=])(?=\s)',['>=','<']),('<=',['<']),('>=',['>']),('==',['!=']),('!=',['==']),(r'&&',['||']),(r'\|\|',['&&']),(r'(?<=[\w\])]) ?\+ ?(?=[\w(])',[' - ']),(r'(?<=[\w\])]) ?- ?(?=[\w(])',[' + ']),(r'(?<=[\w\])]) ?\* ?(?=[\w(])',[' / ']),(r'(?<=[\w\])]) ?/ ?(?=[\w(])',[' * ']),(r'\+=',['-=']),(r'-=',['+=']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\+\+',['--']),(r'(?<![\w.])0(?![\w.])',['1']),(r'(?<![\w.])1(?![\w.])',['0','2']),(r'(?<![\w.])2(?![\w.])',['1']),(r'(?<![\w.])(\d+\.\d+)',[r'(1.01*\1)']),(r'\bif \((.*)\) *(\{|$)',[r'if (!(\1)) \2'])]:
            for m in re.finditer(pat,code):
                if instr(m.start()): continue
                for r in reps:
                    rr=m.expand(r) if '\\' in r else r
                    add(pat+' -> '+r, l[:m.start()]+rr+l[m.end():])
        if s.endswith(';') and re.match(r'^[\w\->.\[\]()* ]+(\(| ?[+\-*/]?= ?|\+\+|--)',s) and not re.match(r'^(return|const|unsigned|int|slibreal_t|double|size_t|auto|string|vector|struct|static|throw|bool|char|for|while|if|else|delete|gsl_|H5|\w+ \*?\w+ *=|\w+<)',s) and '(' not in s[:1]:
            add('delete',re.match(r'^\s*',l).group()+';')
        if s.startswith('throw ') and s.endswith(';'): add('no throw',re.match(r'^\s*',l).group()+';')
        if re.match(r'^(break|continue|return);$',s): add('delete jump',re.match(r'^\s*',l).group()+';')
        if s.startswith('return ') and s.endswith(';') and 'true' not in s and 'false' not in s and re.match(r'^return [\w>\-.()\[\]]+;$',s) and False: pass
    return out
def setup(w):
    d=f'{W}/{w}'; os.makedirs(d,exist_ok=True)
    if os.path.exists(d+'/repo'): shutil.rmtree(d+'/repo')
    subprocess.run(['git','clone','-q',SRC,d+'/repo'],check=True)
class Worker:
    def __init__(s,w): s.w=w; s.d=f'{W}/{w}'; s.repo=s.d+'/repo'; s.libs={}; s.objs={}
    def sh(s,cmd,t=600): 
        try: return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
        except subprocess.TimeoutExpired: return None
    def lib(s,variant):
        b=f'{s.d}/lib-{variant}'
        if variant not in s.libs:
            if os.path.exists(b): shutil.rmtree(b)
            r=s.sh(['cmake','-S',s.repo,'-B',b,'-G','Ninja','-DCMAKE_BUILD_TYPE=None','-DBUILD_TESTS=OFF','-DCMAKE_CXX_FLAGS='+CK.VARIANTS[variant]+' -w']); assert r.returncode==0,r.stdout
            s.libs[variant]=b
        r=s.sh(['ninja','-j3','-C',b,'softlib']); return b if r and r.returncode==0 else None
    def harness(s,pid,i,cfg,fresh):
        v=cfg.get('variant','asan'); b=s.lib(v)
        if not b: return None
        inc,lnk=CK.link_flags(); o=f'{s.d}/h-{pid}-{i}.o'; exe=f'{s.d}/h-{pid}-{i}'
        I=['-I'+b+'/include','-I'+s.repo+'/include','-I'+V+'/harness']+inc
        if fresh or o not in s.objs:
            s.objs.pop(o,None)
            r=s.sh(['g++','-std=c++17']+CK.HARNESS_FLAGS.get(v,CK.VARIANTS[v]).split()+['-w','-fopenmp','-D_FILE_OFFSET_BITS=64','-DHAS_LIBPNG']+I+cfg.get('cflags',[])+['-c',V+'/harness/'+cfg['src'][0],'-o',o])
            if r is None or r.returncode: return None
            if not fresh: s.objs[o]=1
        ex=[]
        for k,(src,fl) in enumerate(cfg.get('objs',[])):
            eo=f'{s.d}/e-{pid}-{k}.o'; ex.append(eo); r=s.sh(['g++','-std=c++17','-w','-fopenmp','-c',src.replace('@REPO@',s.repo),'-o',eo]+I+fl)
            if r is None or r.returncode: return None
        r=s.sh(['g++']+CK.HARNESS_FLAGS.get(v,CK.VARIANTS[v]).split()+['-fopenmp',o]+ex+[b+'/src/libsoftlib.a']+cfg.get('ldflags',[])+lnk+['-rdynamic','-o',exe])
        return exe if r and r.returncode==0 else None
    def run(s,pid,hdr):
        for i,cfg in enumerate(CK.parts_of(CHECKS[pid])):
            exe=s.harness(pid,i,cfg,hdr)
            if not exe: return 'nobuild',''
            e=CK.env_for_run.__wrapped__() if hasattr(CK.env_for_run,'__wrapped__') else s.env()
            os.makedirs(s.d+'/rep',exist_ok=True)
            p=subprocess.Popen([exe,'--out',s.d+'/st.json','--replay-dir',s.d+'/rep','--jobs','3'],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,env=e,start_new_session=True)
            t=threading.Timer(400,lambda: os.killpg(p.pid,9)); t.start(); hit=''
            for line in p.stdout:
                if line.startswith('VIOLATION'): hit=p.stdout.readline().strip(); break
            t.cancel()
            if hit: 
                try: os.killpg(p.pid,9)
                except OSError: pass
                p.wait(); subprocess.run('rm -rf /dev/shm/mut%s/*'%s.w,shell=True); return 'killed',hit[:150]
            if p.wait()!=0: return 'killed','exit %s'%p.returncode
        return 'survived',''
    def env(s):
        e=dict(os.environ); l=s.d+'/asan'; os.makedirs(l,exist_ok=True)
        for f in os.listdir(l): os.unlink(l+'/'+f)
        e['ASAN_OPTIONS']=f'detect_leaks=0:log_path={l}/log:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=4096'; e['MC_ASAN_LOG']=l+'/log'; m='/dev/shm/mut%s'%s.w; os.makedirs(m,exist_ok=True); e['MC_TMP']=m; e['OMP_NUM_THREADS']='1'; e['HDF5_USE_FILE_LOCKING']='FALSE'; e['TZ']='UTC'; e['LC_ALL']='C'; return e
def main():
    out,nw,frac,seed=sys.argv[1],int(sys.argv[2]),float(sys.argv[3]),int(sys.argv[4]); sub=sys.argv[5] if len(sys.argv)>5 else ''
    rnd=random.Random(seed); ms=[]
    for f in FILES:
        if sub and sub not in f: continue
        if any(p not in CHECKS for p in FILES[f]): continue
        g=gen(f,open(SRC+'/'+f).read()); ms+= g if frac>=1 else [m for m in g if rnd.random()<frac]
    done=set()
    if os.path.exists(out):
        for l in open(out): r=json.loads(l); done.add((r['file'],r['line'],r['new']))
    ms=[m for m in ms if (m[0],m[1],m[4]) not in done]; rnd.shuffle(ms); print(len(ms),'mutants',flush=True)
    if frac==0 or os.environ.get('DRY'): return
    q=queue.Queue(); [q.put(m) for m in ms]; lock=threading.Lock(); cnt={}
    def work(w):
        setup(w); k=Worker(w)
        while True:
            try: f,n,op,old,new=q.get_nowait()
            except queue.Empty: return
            p=k.repo+'/'+f; text=open(p).read(); L=text.split('\n'); assert L[n]==old; L[n]=new; open(p,'w').write('\n'.join(L)); t0=time.time(); res,msg,by='survived','',''
            try:
                for pid in FILES[f]:
                    res,msg=k.run(pid,f.startswith('include/')); by=pid
                    if res!='survived': break
            except Exception as ex: res,msg='error',str(ex)
            open(p,'w').write(text)
            with lock:
                cnt[res]=cnt.get(res,0)+1; open(out,'a').write(json.dumps({'file':f,'line':n,'op':op,'old':old.strip(),'new':new,'res':res,'by':by,'msg':msg,'t':round(time.time()-t0,1)})+'\n'); print(cnt,flush=True) if sum(cnt.values())%20==0 else None
    T=[threading.Thread(target=work,args=(w,)) for w in range(nw)]; [t.start() for t in T]; [t.join() for t in T]; print(cnt)
main()
