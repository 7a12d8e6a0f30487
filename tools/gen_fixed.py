import subprocess
m="""C09: 3219b41, b2842e9, 8939d34, e59345f, 3c5cca8, 221d933
C01: 65e6c6a, 6cccdf0, 96682e1
C04: a57a205, 17824b2, 67cbee5
C18: 0d549f3, a2b5272, c109fad, b426133
C03: 8139d86, dbf5b6d
C07: 14a69f5, 9cf068c
C11: 1d85639
C10: ee57f79, d6f1329, ade7b3b, dfc6df8, 8b29dbf
C01: e81a722
C17: 0939d16, 446d9de, 883a5f2, 9bc545a, 78b7506
C12: 13b0fe8
C13: ac51aab, 1b30b4f, cfde78d
C14: efc5ccb, 21385bc, 30136f2, 76d1908, 9922891, 69e1d45, 879e3c4, 755a5f6, e81681f, 74bd858, 1038ce0, 414e677
C15: d0ce452, 609b053, 0302d0f, 644e453, 797b08c, e96d515
C16: 849836c, 10ed055
C19: 1388d97, 5dcde44, ea91c8c, bb8d8f1
C21: 0314777, 18b4168, da23184, 1b32539, e374430, c614f26, 8185665, 8d0a983
C22: df6488e, 90e40db, a79ee5b, a947715
C23: aa8a661, b21c04e, 63c2783
C24: 93f13c6
C25: 6b155b3
C27: 8683f51
C06: 12829e3, 9c79cb8, c39be20, 4f30f3d
C28: 60291cc, ce58c7e
C17: 3356e53
C17: 0f36237
C10: eee5ec4
C21: f6fd9a8
C10: dfcd903, 6bad289
C14: b6937b1, 8302b26
C09: 8e90830
C09: 96b9a07
C14: f2275b0
C29: 4c150dc, 462ce60, 1ae697c, e3cf08c, 9092c15, cfc516c, e7f1539, d9f43fb, ca5a314, f74e4df, f9182d4, 5e7c5fa, e7cc239"""
prop={h.strip():l.split(':')[0] for l in m.splitlines() for h in l.split(':')[1].split(',')}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','157630b..HEAD'],text=True).splitlines()
f='/verif/known_findings.txt'
s=[l for l in open(f).read().splitlines() if not l.startswith('fixed:')]
out=[]
for l in log:
    h,t=l.split(' ',1); assert t.startswith('fix: '),t
    out.append((prop[h],'fixed: property=%s %s %s'%(prop[h],h,t[5:])))
open(f,'w').write('\n'.join(s+[x for _,x in sorted(out,key=lambda t:t[0])])+'\n')
print(len(out))
