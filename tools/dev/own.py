import re,subprocess,sys
def g(*a): return subprocess.run(['git','-C','/repo',*a],stdout=subprocess.PIPE,text=True).stdout
def added(path):
    out=set()
    for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", g('diff','-U0','444a385','HEAD','--',path)):
        out.update(range(int(m[1]),int(m[1])+int(m[2] or 1)))
    return out
def counts(patch):
    # patch with context; use -U0 regenerated hunks
    ok=False; path=None
    for l in patch.splitlines():
        m=re.match(r'--- a/(.*)',l)
        if m: path=m[1]; A=added(path)
    # walk hunks
    for f in re.split(r'(?m)^(?=diff --git)',patch)[1:]:
        path=re.search(r'(?m)^--- a/(.*)',f)[1]; A=added(path)
        for h in re.split(r'(?m)^(?=@@ )',f)[1:]:
            at=int(re.match(r'@@ -(\d+)',h)[1]); i=at; pend=False; 
            body=h.splitlines()[1:]
            k=0
            while k<len(body):
                if body[k][:1]==' ' or body[k]=='' : i+=1;k+=1;continue
                rem=[];ins=0
                while k<len(body) and body[k][:1] in '-+':
                    if body[k][0]=='-': rem.append(i); i+=1
                    else: ins+=1
                    k+=1
                if k<len(body) and body[k].startswith('\\'): k+=1
                if rem: ok|=any(r not in A for r in rem)
                else: ok|=all(x not in A for x in (i-1,i))
    return ok
if __name__=='__main__':
    if sys.argv[1]=='show':
        for p in sys.argv[2:]:
            A=added('anothertls/src/'+p)
            for n,l in enumerate(open('/repo/anothertls/src/'+p),1): print(('+' if n in A else ' ')+l,end='')
    else:
        import glob
        for d in sorted(glob.glob('/verif/seeded/*/patch.diff')): print(d.split('/')[3],counts(open(d).read()))
