#!/usr/bin/env python3
"""Generate /verif/seeded from the .plant files: header lines, edits, demonstration."""
import sys,os,re,json,subprocess,shutil,glob
H=os.path.dirname(os.path.abspath(__file__))
OUT=os.path.join(H,'..','..','seeded')
W='/tmp/plantgen'
def parse(p):
    t=open(p).read()
    head,rest=t.split('\n---\n',1)
    edits,main=rest.rsplit('\n=== main\n',1)
    meta=dict(l.split(': ',1) for l in head.strip().splitlines())
    es=[]
    for blk in re.split(r'^=== edit ',edits,flags=re.M)[1:]:
        f,b=blk.split('\n',1)
        old,new=b.split('\n>>>\n',1)
        es.append((f.strip(),old,new.rstrip('\n')))
    return meta,es,main
def main(names):
    for p in sorted(glob.glob(H+'/*.plant')):
        i=os.path.basename(p)[:-6]
        if names and i not in names: continue
        meta,es,mainrs=parse(p)
        subprocess.run(['rm','-rf',W],check=True)
        subprocess.run(['git','-C','/repo','worktree','prune'])
        subprocess.run(['git','clone','-q','/repo',W],check=True)
        for f,old,new in es:
            fp=os.path.join(W,f); s=open(fp).read()
            n=s.count(old)
            if n!=1 and not old.startswith('@'):
                print(i,f,'matches',n); sys.exit(1)
            if old.startswith('@'):   # @k: the k-th occurrence
                k,old=old[1:].split('\n',1); k=int(k)
                parts=s.split(old); 
                if len(parts)<=k: print(i,f,'no occurrence',k); sys.exit(1)
                s=old.join(parts[:k])+new+old.join(parts[k:])
            else: s=s.replace(old,new)
            open(fp,'w').write(s)
        d=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
        o=os.path.join(OUT,i); os.makedirs(o,exist_ok=True)
        open(o+'/patch.diff','w').write(d)
        open(o+'/main.rs','w').write(open(H+'/common.rs').read()+mainrs)
        open(o+'/demo.sh','w').write(open(H+'/demo.sh').read().replace('@ID@',i))
        os.chmod(o+'/demo.sh',0o755)
        json.dump({'property':meta['property'],'needs':meta['needs'],'what_it_breaks':meta['breaks']},open(o+'/meta.json','w'),indent=1)
        print('ok',i,len(d.splitlines()))
    subprocess.run(['rm','-rf',W])
if __name__=="__main__": main(sys.argv[1:])
