import sys,time
sys.path.insert(0,'/verif')
prop,hn,limit=sys.argv[1],sys.argv[2],float(sys.argv[3])
from engine import runner,sym
runner._winit(prop,'quick',1)
hs=runner._W['hs']
i=[j for j,h in enumerate(hs) if h.name==hn][0]
oq=sym.Explorer.query
slow=[]
def q(self,extra,timeout=None):
    t=time.time(); r=oq(self,extra,timeout); d=time.time()-t
    slow.append((d,len(self.pc),extra,list(self.pc),r))
    return r
sym.Explorer.query=q
import cProfile,pstats
pr=cProfile.Profile()
t=time.time()
work=None;n=0
pr.enable()
r=runner._task((i,None,limit,3,4))
pr.disable()
print('wall',time.time()-t,'paths',r['stats'].paths,'q',r['stats'].queries,'solver',r['stats'].solver_s,'left',len(r['rest']),r['stats'].cut_reasons,[v[0] for v in r['viol']], r['stats'].dead)
slow.sort(key=lambda x:-x[0])
import io
def show(n,d=0):
    if isinstance(n,sym.Lin):
        return "(%s)"%(" + ".join(([str(n.c)] if n.c or not n.t else [])+["%s%s"%("" if k==1 else "%d*"%k,show(a,d+1)) for a,k in n.t]))
    if isinstance(n,sym.Atom):
        if n.op=='var': return n.args[0]
        if d>8: return '...'
        return "%s[%s]"%(n.op,",".join(str(x) if isinstance(x,int) else show(x,d+1) for x in n.args))
    if n.op=='real': return str(n.args[0])
    return "%s{%s}"%(n.op,",".join(show(x,d+1) for x in n.args))
for d,n,e,pc,rr in slow[:3]:
    print('%.2fs pc=%d %s :: %s'%(d,n,type(rr).__name__,show(e)[:1500]))
    if '-v' in sys.argv:
        for c in pc: print('    ',show(c)[:300])
if '-p' in sys.argv:
    pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
if '-lia' in sys.argv:
    import z3
    memo={}
    def il(l):
        if l.id in memo: return memo[l.id]
        e=z3.IntVal(l.c)
        for a,k in l.t: e=e+k*ia(a)
        memo[l.id]=e; return e
    V={}
    def ia(a):
        if a.id in memo: return memo[a.id]
        if a.op=='var': e=z3.Int(a.args[0]); V[a.id]=(e,a)
        elif a.op=='fdiv': e=il(a.args[0])/z3.IntVal(a.args[1])
        elif a.op=='b2i': e=z3.If(ic(a.args[0]),z3.IntVal(1),z3.IntVal(0))
        elif a.op=='ite': e=z3.If(ic(a.args[0]),il(a.args[1]),z3.IntVal(0))
        elif a.op=='abs':
            x=il(a.args[0]); e=z3.If(x<0,-x,x)
        else: raise Exception(a.op)
        memo[a.id]=e; return e
    def ic(c):
        if c.id in memo: return memo[c.id]
        if c.op=='not': e=z3.Not(ic(c.args[0]))
        elif c.op=='and': e=z3.And(ic(c.args[0]),ic(c.args[1]))
        elif c.op=='le0': e=il(c.args[0])<=0
        elif c.op=='eq0': e=il(c.args[0])==0
        memo[c.id]=e; return e
    for mode in ('lia','bvfresh'):
      for d,n,e,pc,rr in slow[:6]:
        t=time.time()
        if mode=='lia':
            s=z3.SolverFor("QF_LIA"); s.set('timeout',20000)
            for c in pc+[e]: s.add(ic(c))
            for z,a in V.values(): s.add(z>=a.lo,z<=a.hi)
        else:
            s=z3.SolverFor("QF_BV"); s.set('timeout',20000)
            for c in pc+[e]:
                s.add(sym.zcond(c))
        print(mode,d,type(rr).__name__,s.check(),time.time()-t)
