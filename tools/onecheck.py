"""onecheck.py DUMP.json ID [REPO] -- one check on one dumped program (development helper)"""
import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa')); sys.setrecursionlimit(20000)
import interp, p_core, p_dict, p_async, p_more
P = interp.Prog(sys.argv[1]); t = time.time(); i = sys.argv[2]
if i in p_core.CHECKS: obs = p_core.CHECKS[i](P)
elif i in p_dict.CHECKS: obs = p_dict.CHECKS[i](P, sys.argv[3] if len(sys.argv) > 3 else '/repo')
elif i in p_async.CHECKS: obs = p_async.CHECKS[i](P)
elif i in p_more.CROSS:
    d = os.path.dirname(sys.argv[1])
    obs = p_more.CROSS[i](interp.Prog(d + '/md5.json'), interp.Prog(d + '/openssl.json')) if sys.argv[1].endswith('md5.json') else []
else: obs = p_more.CHECKS[i](P)
c = {}
for o in obs:
    c[o.status] = c.get(o.status, 0) + 1
    if o.status != 'proved': print(i, o.status, o.fn, o.what, str(o.detail))
print('STAT', i, c, '%.1fs' % (time.time() - t))
