"""Counts lines a patch removes that are the original repository's (not added by later commits)."""
import sys,re,subprocess
base=subprocess.run(['git','-C','/repo','log','--format=%H','--reverse'],capture_output=True,text=True).stdout.split()[0]
base=subprocess.run(['git','-C','/repo','rev-parse','5b0fcf1'],capture_output=True,text=True).stdout.strip() or base
f=None;n=0;blame={}
for l in open(sys.argv[1]):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m.group(1).strip(); blame[f]=[x.split()[0] for x in subprocess.run(['git','-C','/repo','blame','-l','-s','HEAD','--',f],capture_output=True,text=True,errors='replace').stdout.splitlines()]; continue
    m=re.match(r'@@ -(\d+)',l)
    if m: at=int(m.group(1)); continue
    if f and l.startswith('-'):
        c=blame[f][at-1].lstrip('^'); n+= subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',c,base]).returncode==0; at+=1
    elif f and l.startswith(' '): at+=1
print(n)
