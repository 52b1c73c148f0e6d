"""Mechanical mutants of the library (operators, constants, conditions, dropped statements), to find what no check notices.
Run with AUTO=1 STOP=1 tools/campaign.py; not read by any check."""
import re,os
FILES={
 'src/client.rs':'C07 C09 C10 C08 C12 C15 C14 C13 C11 C05 C06 C01 C04 C19',
 'src/client/conn.rs':'C13 C07 C10 C08 C15 C12',
 'src/client/macros.rs':'C06 C12 C07 C05',
 'src/client/read.rs':'C01 C04 C03 C11 C12 C10 C15',
 'src/client/write.rs':'C06 C05 C19 C12 C07 C15',
 'src/client/util.rs':'C08 C10 C12',
 'src/common.rs':'C06 C02 C03',
 'src/lib.rs':'C16 C17',
 'src/irc.rs':'C02 C17 C16 C03',
 'src/irc/channel.rs':'C02 C16 C03',
 'src/irc/command.rs':'C02 C16 C03',
 'src/irc/params.rs':'C02 C16 C03',
 'src/irc/prefix.rs':'C02 C16 C03',
 'src/irc/tags.rs':'C02 C16 C03',
 'src/irc/tags/simd.rs':'C02 C03 C16',
 'src/irc/tags/scalar.rs':'C02 C03 C16',
 'src/irc/wide/x86_64/avx2.rs':'C02 C03',
 'src/irc/wide/x86_64/sse2.rs':'C02 C03',
 'src/msg.rs':'C16 C17 C03',
}
for f in sorted(os.listdir('/repo/src/msg')):
    if f.endswith('.rs') and f!='macros.rs': FILES['src/msg/'+f]='C16 C17 C03'
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > (?!\{)',' >= '),(r' >= ',' > '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+ ',' - '),(r' - (?!>)',' + '),(r' \* ',' + '),(r' \+= ',' -= '),(r' -= ',' += '),(r' % ',' / '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<=[ (])!(?=[a-z_(])',''),(r'\bmin\(','max('),(r'\bis_some\(\)','is_none()'),(r'\bis_none\(\)','is_some()'),
 (r'starts_with\(','ends_with('),(r'ends_with\(','starts_with('),(r'strip_prefix\(','strip_suffix('),(r'\.find\(','.rfind('),(r'split_once\(','rsplit_once('),
 (r'\bcontinue;','break;'),(r'\bbreak;','continue;'),(r'\.clear\(\);','.len();'),(r'unwrap_or\(1\)','unwrap_or(0)'),
 (r'\.filter\(is_not_empty\)',''),(r'maybe_unescape\((self\.\w+\.clone\(\))\)',r'\1'),(r'\.pop\(\);','.len();'),(r'contains\(','starts_with(')]
M=[]
for f,props in FILES.items():
    src=open('/repo/'+f).read().split('\n'); pos=0; text='\n'.join(src)
    for n,l in enumerate(src):
        start=pos; pos+=len(l)+1
        if l.strip().startswith('#[cfg(test)]'): break
        code=l.split('//')[0]
        if not code.strip() or l.strip().startswith(('//','#[','use ','pub use','trace!','debug_assert','pub mod','mod ','impl','static_assert')): continue
        muts=[]
        for rx,new in OPS:
            for k,mm in enumerate(re.finditer(rx,code)):
                muts.append((mm.start(),mm.end(),mm.expand(new)))
        for mm in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
            v=int(mm.group(1))
            if 'b"' in code or '"' in code: continue
            muts.append((mm.start(),mm.end(),str(v+1)))
            if v>0: muts.append((mm.start(),mm.end(),str(v-1)))
        for mm in re.finditer(r'"([a-zA-Z@#:][^"{}\\]{1,40})"',code):
            if 'write!(f' in code and 'rror' in code or 'doc' in code or 'rename' in code or 'feature' in code: continue
            s=mm.group(1); muts.append((mm.start(),mm.end(),'"'+s[:-1]+('x' if s[-1]!='x' else 'y')+'"'))
        if code.rstrip().endswith(';') and not code.strip().startswith(('let ','return','}','const','pub','type','use','break','continue',')')) and code.count('(')==code.count(')') and code.count('{')==code.count('}'):
            muts.append((len(code)-len(code.lstrip()),len(code.rstrip()),';'))
        for i,(a,b,new) in enumerate(muts):
            off=start+a
            # an edit needs an unambiguous anchor: the whole line, counted
            old=l; newl=l[:a]+new+l[b:]
            nth=text[:start].count(l+'\n')+1 if text[:start].count(l)==text[:start].count(l+'\n') else None
            cnt=text[:start].count(l)+1
            M.append((f'a-{f[4:-3].replace("/","-")}-{n+1}-{i}',props.split(),[(f,(old,cnt),newl)]))
M=[x for i,x in enumerate(M) if not x[0].startswith('a-irc-tags-') or x[0].count('-')!=4 or i%10==0]
if __name__=='__main__':
    import collections; print(len(M),collections.Counter(x[2][0][0] for x in M))
