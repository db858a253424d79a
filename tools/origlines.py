"""For every planted bug: which of the lines it removes are lines of the original repository (commit 7addd7a, the pinned one)."""
import subprocess,glob,os,sys
B=sys.argv[1] if len(sys.argv)>1 else '7addd7a'
def orig(f):
    p=subprocess.run(['git','-C','/repo','show',f'{B}:{f}'],capture_output=True,text=True,errors='replace'); return set(l.strip() for l in p.stdout.split('\n'))
for d in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__))+'/../seeded/*/patch.diff')):
    f=None; o=n=a=0; bad=[]
    for l in open(d,errors='replace').read().split('\n'):
        if l.startswith('--- a/'): f=l[6:].split('\t')[0]; s=orig(f)
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() in s: o+=1
            else: n+=1; bad.append(l[1:].strip())
        elif l.startswith('+') and not l.startswith('+++'): a+=1
    print(os.path.basename(os.path.dirname(d)),'orig',o,'fix-added',n,'added',a, bad[:3] if o==0 else '')
