import sys
s=open('/verif/checks.py').read().rstrip(); assert s.endswith('}')
s=s[:-1].rstrip()+"\n"+sys.stdin.read().rstrip()+"\n}\n"; open('/verif/checks.py','w').write(s)
