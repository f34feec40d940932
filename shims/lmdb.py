"""In-memory stand-in for `lmdb` (named DBs, dupsort, cursors, aborting txns).

Data of an environment lives in a process-global registry keyed by path for as
long as the marker file <path>/data.mdb exists."""
import os, bisect, uuid
_open=open
from sortedcontainers import SortedDict
class Error(Exception): pass
class BadValsizeError(Error): pass
class BadTxnError(Error): pass
class ReadonlyError(Error): pass
class NotFoundError(Error): pass
_REG={}
MAXKEY=511
class _Database:
    def __init__(self, env, name, dupsort): self.env=env; self.name=name; self.dupsort=dupsort; self.d=SortedDict()
    def flags(self, txn=None): return dict(reverse_key=False,dupsort=self.dupsort,integerkey=False,dupfixed=False,integerdup=False,reverse_dup=False)
def open(path, **kwa): return Environment(path, **kwa)
class Environment:
    def __init__(self, path, map_size=0, max_dbs=0, mode=0o755, readonly=False, **kwa):
        self._path=path; self.readonly=readonly; self.closed=False
        os.makedirs(path, exist_ok=True)
        mk=os.path.join(path,"data.mdb"); tok=None
        if os.path.exists(mk):
            with _open(mk) as f: tok=f.read()
        if tok not in _REG:
            tok=uuid.uuid4().hex; _REG[tok]={}
            with _open(mk,"w") as f: f.write(tok)
            with _open(os.path.join(path,"lock.mdb"),"w") as f: f.write("")
        self.dbs=_REG[tok]
        for db in self.dbs.values(): db.env=self
    def path(self): return self._path
    def max_key_size(self): return MAXKEY
    def close(self): self.closed=True
    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True, **kwa):
        if key not in self.dbs:
            self.dbs[key]=_Database(self,key,dupsort)
        return self.dbs[key]
    def begin(self, db=None, parent=None, write=False, buffers=False):
        if self.closed: raise Error("Attempt to operate on closed/deleted/dropped object.")
        if write and self.readonly: raise ReadonlyError("read only")
        return Transaction(self, db, write, buffers)
    def stat(self): return dict(entries=sum(len(d.d) for d in self.dbs.values()))
    def __enter__(self): return self
    def __exit__(self,*a): self.close()
class Transaction:
    def __init__(self, env, db, write, buffers):
        self.env=env; self.db=db if db is not None else env.open_db(None); self.write=write; self.buffers=buffers; self.snap={}; self.done=False
        self.view=None if write else {id(d):d.d for d in env.dbs.values()}  # MVCC: readers keep the map they began with
    def _d(self, db):
        return db.d if self.view is None else self.view.get(id(db), db.d)
    def _touch(self, db):
        if not self.write: raise ReadonlyError("mdb_put: Permission denied")
        if id(db) not in self.snap:
            self.snap[id(db)]=(db, db.d)
            db.d=SortedDict((k,list(v)) for k,v in db.d.items())
    def abort(self):
        if not self.done:
            for db,s in self.snap.values(): db.d=s
        self.done=True
    def commit(self): self.done=True
    def __enter__(self): return self
    def __exit__(self, t, v, tb):
        if t is None: self.commit()
        else: self.abort()
    def _b(self, x): return memoryview(x) if self.buffers else x
    @staticmethod
    def _ck(key, dupval=None):
        if not key or len(key)>MAXKEY: raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data, or wrong DUPFIXED size")
        if dupval is not None and len(dupval)>MAXKEY: raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
        return bytes(key)
    def get(self, key, default=None, db=None):
        db=db or self.db; k=self._ck(key); v=self._d(db).get(k)
        return self._b(v[0]) if v else default
    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        db=db or self.db; v=b"" if value is None else bytes(value); k=self._ck(key, v if db.dupsort else None); self._touch(db)
        cur=db.d.get(k)
        if not db.dupsort:
            if cur and not overwrite: return False
            db.d[k]=[v]; return True
        if cur is None: db.d[k]=[v]; return True
        if not overwrite: return False
        i=bisect.bisect_left(cur,v)
        if i<len(cur) and cur[i]==v: return bool(dupdata)
        cur.insert(i,v); return True
    def delete(self, key, value=b'', db=None):
        db=db or self.db; k=self._ck(key); cur=db.d.get(k)
        if not cur: return False
        self._touch(db); cur=db.d.get(k); v=bytes(value)
        if db.dupsort and v:
            if v not in cur: return False
            cur.remove(v)
            if not cur: del db.d[k]
            return True
        del db.d[k]; return True
    def replace(self, key, value, db=None):
        old=self.get(key,db=db); self.put(key,value,db=db); return old
    def cursor(self, db=None): return Cursor(self, db or self.db)
    def drop(self, db, delete=True): self._touch(db); db.d.clear()
    def stat(self, db=None): return dict(entries=sum(len(v) for v in self._d(db or self.db).values()))
class Cursor:
    """pos = (key,val) or None; self.at_next: entry at pos was deleted, the item after it is current."""
    def __init__(self, txn, db): self.txn=txn; self.db=db; self.pos=None; self.gap=False
    def __enter__(self): return self
    def __exit__(self,*a): pass
    def close(self): pass
    def _ge(self,k,v=None):
        """first entry >= (k,v)"""
        d=self.txn._d(self.db); i=d.bisect_left(k)
        while i<len(d):
            kk,vs=d.peekitem(i)
            if kk>k or v is None: return (kk,vs[0])
            j=bisect.bisect_left(vs,v)
            if j<len(vs): return (kk,vs[j])
            i+=1
        return None
    def _gt(self,k,v):
        d=self.txn._d(self.db); i=d.bisect_left(k)
        while i<len(d):
            kk,vs=d.peekitem(i)
            if kk>k: return (kk,vs[0])
            j=bisect.bisect_right(vs,v)
            if j<len(vs): return (kk,vs[j])
            i+=1
        return None
    def _lt(self,k,v):
        d=self.txn._d(self.db); i=d.bisect_right(k)-1
        while i>=0:
            kk,vs=d.peekitem(i)
            if kk<k: return (kk,vs[-1])
            j=bisect.bisect_left(vs,v)
            if j>0: return (kk,vs[j-1])
            i-=1
        return None
    def _set(self,p): self.pos=p; self.gap=False; return p is not None
    def _cur(self):
        if self.pos is None: return None
        if self.gap:
            p=self._ge(*self.pos); self.gap=False; self.pos=p
        return self.pos
    def item(self):
        p=self._cur()
        return (self.txn._b(p[0]),self.txn._b(p[1])) if p else (self.txn._b(b''),self.txn._b(b''))
    def key(self): return self.item()[0]
    def value(self): return self.item()[1]
    def first(self): d=self.txn._d(self.db); return self._set((d.peekitem(0)[0],d.peekitem(0)[1][0]) if d else None)
    def last(self): d=self.txn._d(self.db); return self._set((d.peekitem(-1)[0],d.peekitem(-1)[1][-1]) if d else None)
    def next(self):
        if self.pos is None: return self.first()
        if self.gap: return self._cur() is not None
        return self._set(self._gt(*self.pos))
    def prev(self):
        if self.pos is None: return self.last()
        return self._set(self._lt(*self.pos))
    def next_nodup(self):
        p=self._cur()
        if p is None: return self.first()
        d=self.txn._d(self.db); i=d.bisect_right(p[0])
        return self._set((d.peekitem(i)[0],d.peekitem(i)[1][0]) if i<len(d) else None)
    def next_dup(self):
        p=self._cur()
        if p is None: return False
        n=self._gt(*p)
        return self._set(n if n and n[0]==p[0] else None)
    def first_dup(self):
        p=self._cur()
        if p is None: return False
        return self._set((p[0],self.txn._d(self.db)[p[0]][0]))
    def last_dup(self):
        p=self._cur()
        if p is None: return False
        return self._set((p[0],self.txn._d(self.db)[p[0]][-1]))
    def set_key(self,key):
        k=Transaction._ck(key); v=self.txn._d(self.db).get(k)
        return self._set((k,v[0]) if v else None)
    def set_range(self,key):
        k=bytes(key)
        if not k: return self.first()
        if len(k)>MAXKEY: pass
        return self._set(self._ge(k))
    def set_key_dup(self,key,value):
        k=bytes(key); v=self.txn._d(self.db).get(k)
        return self._set((k,bytes(value)) if v and bytes(value) in v else None)
    def set_range_dup(self,key,value):
        k=bytes(key); vs=self.txn._d(self.db).get(k)
        if not vs: return self._set(None)
        j=bisect.bisect_left(vs,bytes(value))
        return self._set((k,vs[j]) if j<len(vs) else None)
    def get(self,key,default=None): return self.value() if self.set_key(key) else default
    def count(self):
        p=self._cur(); return len(self.txn._d(self.db)[p[0]]) if p else 0
    def put(self,key,val,dupdata=True,overwrite=True,append=False):
        r=self.txn.put(key,val,dupdata=dupdata,overwrite=overwrite,db=self.db)
        self._set((bytes(key),bytes(val))); return r
    def replace(self,key,val):
        old=self.get(key); self.put(key,val); return old
    def pop(self,key):
        old=self.get(key)
        if old is not None: old=bytes(old); self.delete()
        return old
    def delete(self,dupdata=False):
        p=self._cur()
        if p is None: return False
        if dupdata or not self.db.dupsort: self.txn.delete(p[0],db=self.db)
        else: self.txn.delete(p[0],p[1],db=self.db)
        self.gap=True; return True
    def _iter(self,step,keys,values,first):
        if self.pos is None and not self.gap:
            ok=first()
        else: ok=self._cur() is not None
        while ok:
            k,v=self.item()
            yield (k,v) if keys and values else k if keys else v
            ok=step()
    def iternext(self,keys=True,values=True): return self._iter(self.next,keys,values,self.first)
    def iterprev(self,keys=True,values=True): return self._iter(self.prev,keys,values,self.last)
    def iternext_dup(self,keys=False,values=True): return self._iter(self.next_dup,keys,values,lambda: False)
    def iternext_nodup(self,keys=True,values=False): return self._iter(self.next_nodup,keys,values,self.first)
    __iter__=iternext
