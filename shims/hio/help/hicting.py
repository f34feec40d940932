from collections.abc import MutableMapping
class Hict(MutableMapping):
    """ordered, case-insensitive multidict"""
    def __init__(self, *pa, **kwa):
        self._l=[]; self.extend(*pa, **kwa)
    def _items(self, *pa, **kwa):
        for a in pa:
            if hasattr(a,"items"): yield from a.items()
            else: yield from a
        yield from kwa.items()
    def extend(self,*pa,**kwa):
        for k,v in self._items(*pa,**kwa): self._l.append((k,v))
    update=extend
    def add(self,k,v): self._l.append((k,v))
    def __setitem__(self,k,v):
        if k in self: del self[k]
        self._l.append((k,v))
    def __delitem__(self,k):
        n=[(a,b) for a,b in self._l if a.lower()!=k.lower()]
        if len(n)==len(self._l): raise KeyError(k)
        self._l=n
    def __getitem__(self,k):
        for a,b in self._l:
            if a.lower()==k.lower(): return b
        raise KeyError(k)
    def get(self,k,d=None):
        try: return self[k]
        except KeyError: return d
    def getall(self,k,d=None): return [b for a,b in self._l if a.lower()==k.lower()] or d
    def __contains__(self,k): return any(a.lower()==k.lower() for a,_ in self._l)
    def __iter__(self): return iter([a for a,_ in self._l])
    def __len__(self): return len(self._l)
    def items(self): return list(self._l)
    def keys(self): return [a for a,_ in self._l]
    def values(self): return [b for _,b in self._l]
    def __eq__(self,o):
        if isinstance(o,Hict): return self._l==o._l
        return isinstance(o,dict) and dict(self._l)==o
    def __repr__(self): return "Hict(%r)"%self._l
Mict=Hict
