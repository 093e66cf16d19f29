import sys,subprocess,runpy
sp,wt=sys.argv[1:3]
subprocess.run(['rm','-rf',wt]); subprocess.run(['git','clone','-q','/repo',wt],check=True)
for f,o,n in runpy.run_path(sp)['EDITS']:
    t=open(f'{wt}/{f}').read()
    if t.count(o)!=1: print('OLD occurs',t.count(o),o[:80]); continue
    open(f'{wt}/{f}','w').write(t.replace(o,n))
