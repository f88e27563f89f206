"""debug helper: show.py DUMP FUNCTION"""
import sys; sys.path.insert(0, __file__.rsplit('/',1)[0])
import ir
def A(fn,o):
    r,off,v=fn.addr(o); return '[%s%+d%s]'%(r,off,''.join(' +%s*%d'%x for x in v))
def show(fn):
    for b in fn.rpo:
        print('b%d:  preds %s'%(b,fn.pred[b]))
        for i in fn.blocks[b]:
            l=i.get('loc'); ls='%s:%d'%(l[0][0].split('/')[-1],l[0][1]) if l else ''
            op=i['op']
            if op=='getelementptr': continue
            if op=='load': s='load %s %s  vn=%s'%(i['ty'],A(fn,i['ops'][0]),fn.ldvn.get(i['i']))
            elif op=='store': s='store %s %s -> %s'%(i['sty'],i['ops'][0],A(fn,i['ops'][1]))
            elif op=='call': s='call %s(%s)%s'%(i['callee'],', '.join(A(fn,o) if t=='ptr' and o[0]!='@' else o for o,t in zip(i['ops'],i['at'])),'   <<EVENT>>' if ir.is_event(fn,i) else '')
            elif op=='phi': s='phi '+', '.join('%s@b%d'%x for x in zip(i['ops'],i['in']))
            elif op in('icmp','fcmp'): s='%s %s %s'%(op,i['pred'],i['ops'])
            elif op=='alloca': s='alloca %s'%i['aty']
            elif op=='switch': s='switch %s %s def %d'%(i['ops'],i['cases'],i['def'])
            else: s='%s %s %s'%(op,i['ops'],i.get('succ',''))
            print('  %%%-4d %-90s ; %s'%(i['i'],s,ls))
if __name__=='__main__':
    P=ir.Program(sys.argv[1]); f=P.fn(sys.argv[2]); ir.number_memory(f); show(f)
