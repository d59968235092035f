import os
D=os.path.dirname(os.path.abspath(__file__))+'/../'
F={}
for l in open(D+'KNOWN_FINDINGS.txt'):
    if l.startswith('fixed:'):
        p,c,t=l[6:].strip().split(' ',2); F.setdefault(p.split('=')[1],[]).append((c,t))
print('## Defects found and repaired\n\n%d genuine defects were found by the checks (or while writing them) and repaired, each in a "fix:" commit; KNOWN_FINDINGS.txt lists them, and the check of the property reports each one again if it returns.\n'%sum(map(len,F.values())))
for p in sorted(F):
    print('* %s: '%p+'; '.join('%s (%s)'%(t,c) for c,t in F[p]))
