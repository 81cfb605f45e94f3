import os,subprocess,json,shutil,sys
S="/verif/seeded"
def plant(id,prop,edits,demo,needs,breaks,extra=(),lib=True):
    d=f'{S}/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f,old,new,*cnt in edits:
        p='/repo/'+f; s=open(p,newline='').read()
        if '\r\n' in s: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        c=s.count(old)
        if c!=(cnt[0] if cnt else 1): print(id,'match count',c,'in',f); subprocess.run(['git','-C','/repo','checkout','-q','--','.']); return
        open(p,'w',newline='').write(s.replace(old,new))
    open(d+'/patch.diff','wb').write(subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout)
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    if lib:
        shutil.copy('/verif/tools/seedlib/run.c',d); shutil.copy('/verif/tools/seedlib/lib.sh',d); demo='. "$(dirname "$0")/lib.sh"\n'+demo
    for n,t in extra: open(d+'/'+n,'w').write(t)
    open(d+'/demo.sh','w').write('#!/bin/bash\n'+demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print('planted',id)
