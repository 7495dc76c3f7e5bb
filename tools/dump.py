"""dump.py DIR -- put the MIR of $VERIF_REPO into DIR/{md5,openssl,gen}.json (development helper)"""
import sys, shutil, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
o = sys.argv[1]
import check
d = check.dumps()
for c in ('md5', 'openssl', 'gen'): shutil.copy(d[c], f'{o}/{c}.json')
