#!/usr/bin/env python3
"""automatic mutants of a header: which survive the checks of its properties?"""
import re,sys,os,subprocess,random,shutil,json
from concurrent.futures import ThreadPoolExecutor
INC='/repo/include'
H={
'small_vector.hpp':['V08','V02','V01','V03'],'static_vector.hpp':['V09','V05','V04'],'pod_vector.hpp':['V06','V07'],
'atomic_shared_ptr_storage.hpp':['C01','C02'],'data_mutex.hpp':['C04'],'mutex.hpp':['C03'],'atomic.hpp':['C05'],
'flat_map.hpp':['M01','M03'],'flat_set.hpp':['M02','M03'],'transparent_umap.hpp':['M03'],'dynamic_bitset.hpp':['B01'],
'any.hpp':['A01','A02'],'expected.hpp':['E01'],'ufunction.hpp':['F01'],'generator.hpp':['G01'],'mem_streambuf.hpp':['S01','S02'],
'rstream.hpp':['S03'],'pmr_allocator.hpp':['L01'],'span.hpp':['P01'],'stride_span.hpp':['P02'],'poly_span.hpp':['P03'],'memory_view.hpp':['P04'],
'qalgorithm.hpp':['Q01'],'strutil.hpp':['Q02'],'time_t.hpp':['T01'],'make_ptr.hpp':['K01'],'shared_from.hpp':['K02'],'sentry.hpp':['K03'],'throw_ex.hpp':['K03'],
'utility.hpp':['X01'],'type_traits.hpp':['X01']}
def mutants(text):
    out=[]
    lines=text.split('\n')
    pos=0
    for n,l in enumerate(lines):
        code=l.split('//')[0]
        st=code.strip()
        if not st or st.startswith('#') or st.startswith('static_assert') or st.startswith('using ') or st.startswith('template') or st.startswith('friend class'): continue
        def rep(a,b,what): 
            nl=l[:a]+b[0]+l[b[1]:] if isinstance(b,tuple) else None
            out.append((n,nl,what))
        # statement deletion
        if st.endswith(';') and not re.match(r'(return|auto |const |using|typedef|friend|public|private|throw|case|T\*|size_t |explicit|bool |int |char |typename|static|struct|class|enum|extern|std::\w+(<.*>)? \w+( =|;)|.*=\s*(default|delete|0)\s*;$|\w+\s+\w+\s*(=|;|\{)|mutable)',st) and code.count('(')==code.count(')'):
            i=l.index(st); out.append((n,l[:i]+';'+l[i+len(st):],'del'))
        if re.match(r'return\s*;',st): out.append((n,l.replace(st,';'),'del return'))
        for m in re.finditer(r'\bif \((.*)\)( \{|\s*$| return| throw| [a-z_]+.*;)',code):
            c=m.group(1)
            if c.count('(')==c.count(')') and 'constexpr' not in l:
                out.append((n,l[:m.start(1)]+'!('+c+')'+l[m.end(1):],'neg if'))
                out.append((n,l[:m.start(1)]+'false && ('+c+')'+l[m.end(1):],'if false'))
        R=[(r' < ',[' <= ',' > ']),(r' > ',[' >= ',' < ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),
           (r' \+ ',[' - ']),(r' - ',[' + ']),(r' \+= ',[' -= ']),(r' -= ',[' += ']),(r'\+\+',['--']),(r'--',['++']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
           (r' \* ',[' + ']),(r' / ',[' * ']),(r' % ',[' / ']),(r'\b0\b',['1']),(r'\b1\b',['0','2']),(r'std::move\(',['(']),(r'std::forward<[^()]*?>\(',['(']),(r'\bnullptr\b',[]),
           (r'memory_order_(acquire|release|acq_rel|seq_cst)',['memory_order_relaxed']),(r' \| ',[' & ']),(r' & ',[' | ']),(r' << ',[' >> ']),(r' >> ',[' << ']),(r'~',['']),(r'\bnoexcept\b(?!\()',[]) ]
        for r,subs in R:
            for m in re.finditer(r,code):
                for x in subs: out.append((n,l[:m.start()]+x+l[m.end():],m.group(0).strip()+'->'+x.strip()))
    return lines,out
def main():
    hdrs=sys.argv[1].split(','); limit=int(sys.argv[2]) if len(sys.argv)>2 else 10**9
    jobs=int(sys.argv[3]) if len(sys.argv)>3 else 2
    for h in hdrs:
        text=open(INC+'/itlib/'+h).read()
        lines,ms=mutants(text)
        random.seed(int(os.environ.get('MMSEED','7'))); 
        if len(ms)>limit: ms=sorted(random.sample(ms,limit))
        print('##',h,len(ms),flush=True)
        def one(a):
            i,(n,nl,what)=a
            d='/tmp/mm/w_%s_%d'%(h,i); shutil.rmtree(d,ignore_errors=True); shutil.copytree(INC,d)
            ls=list(lines); ls[n]=nl; open(d+'/itlib/'+h,'w').write('\n'.join(ls))
            res='SURVIVED'; info=''
            q=subprocess.run(['g++','-std=c++20','-fsyntax-only','-w','-I'+d,'-x','c++','-'],input='#include <itlib/%s>\n'%h,text=True,capture_output=True)
            if q.returncode: shutil.rmtree(d); return i,n,what,'INVALID',nl
            for c in H[h]:
                try: p=subprocess.run(['nice','-n','10','python3','/verif/run.py',c,'--include',d,'--no-evidence'],text=True,capture_output=True,timeout=600)
                except subprocess.TimeoutExpired: res='TIMEOUT'; break
                if 'does not compile' in p.stdout: res='INVALID'; break
                if p.returncode: res='KILLED' if p.returncode==1 and 'VIOLATION' in p.stdout else 'ERROR %d %s'%(p.returncode,p.stdout[-200:]); break
            shutil.rmtree(d)
            return i,n,what,res,nl
        cnt={}
        with ThreadPoolExecutor(jobs) as ex:
            for i,n,what,res,nl in ex.map(one,enumerate(ms)):
                cnt[res.split()[0]]=cnt.get(res.split()[0],0)+1
                if not res.startswith(('KILLED','INVALID')): print('%s %s:%d [%s] %s'%(res,h,n+1,what,nl.strip()),flush=True)
        print('##',h,cnt,flush=True)
main()
