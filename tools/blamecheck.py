"""for each seeded patch: how many removed lines are lines of the original repository / of own commits"""
import subprocess,re,sys,os
base='484ed67'
for d in sorted(os.listdir('/verif/seeded')):
    if sys.argv[1:] and d not in sys.argv[1:]: continue
    o=n=0; f=None
    for l in open(f'/verif/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip(); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{ln},{ln}','HEAD','--',f],capture_output=True,text=True).stdout
            if b.startswith('^'): o+=1
            else: n+=1
        if l[0] in ' -': ln+=1
    print(d,'original',o,'own',n,'' if o else '<<< no original line removed')
