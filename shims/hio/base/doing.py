import types, functools
from . import tyming
from ..help.helping import copyfunc
def doify(f,*,name=None,tock=0.0,**opts):
    def w(*a,**k): return f(*a,**k)
    functools.update_wrapper(w,f)
    if isinstance(f,types.MethodType): w=types.MethodType(lambda self,*a,**k: f(*a,**k), f.__self__)
    else:
        w.tock=tock; w.done=None; w.opts=opts; w.__name__=name or f.__name__
    return w
def doize(*,tock=0.0,**opts):
    def deco(f): f.tock=tock; f.done=None; f.opts=opts; return f
    return deco
class Doer(tyming.Tymee):
    def __init__(self,*,tymth=None,tock=0.0,opts=None,temp=None,**kwa):
        super().__init__(tymth=tymth); self.done=None; self.tock=tock; self.opts=opts or {}; self.temp=temp
    def __call__(self,**kwa): return self.do(**kwa)
    def do(self,tymth=None,*,tock=0.0,**opts):
        try:
            self.wind(tymth); self.done=False; self.enter()
            while not self.done:
                tyme=yield tock; self.done=self.recur(tyme=tyme)
        finally: self.exit()
        return self.done
    def enter(self,**kwa): pass
    def recur(self,tyme): return False
    def exit(self): pass
class DoDoer(Doer):
    def __init__(self,doers=None,always=False,**kwa):
        super().__init__(**kwa); self.doers=list(doers) if doers else []; self.always=always; self.deeds=[]
    def extend(self,doers): self.doers.extend(doers)
    def remove(self,doers):
        for d in doers:
            if d in self.doers: self.doers.remove(d)
class Doist(tyming.Tymist):
    def __init__(self,*,real=False,limit=None,doers=None,**kwa):
        super().__init__(**kwa); self.real=real; self.limit=limit; self.doers=doers or []; self.done=None
    def do(self,doers=None,**kwa): raise NotImplementedError
    def enter(self,doers=None):
        self.deeds=[]
        for d in (doers if doers is not None else self.doers):
            g=d(tymth=self.tymen(),tock=d.tock,**(getattr(d,'opts',None) or {}))
            try: next(g); self.deeds.append((g,self.tyme,d))
            except StopIteration as ex: d.done=ex.value
        return self.deeds
    def recur(self,deeds=None):
        deeds=self.deeds if deeds is None else deeds
        for x in list(deeds):
            try: x[0].send(self.tyme)
            except StopIteration as ex: x[2].done=ex.value; deeds.remove(x)
        self.tick()
    def exit(self,deeds=None):
        deeds=self.deeds if deeds is None else deeds
        for x in list(deeds): x[0].close(); deeds.remove(x)
