"""stand-in for hio.base.filing.Filer (same constructor surface; only temp or explicit headDirPath are honoured)."""
import os, shutil, stat, tempfile
from contextlib import contextmanager
@contextmanager
def openFiler(cls=None,name="test",temp=True,reopen=True,clear=False,**kwa):
    f=None; cls=cls or Filer
    try:
        f=cls(name=name,temp=temp,reopen=reopen,clear=clear,**kwa); yield f
    finally:
        if f: f.close(clear=f.temp or clear)
class Filer:
    HeadDirPath=os.path.join(os.path.sep,"usr","local","var"); TailDirPath="hio"; CleanTailDirPath=os.path.join("hio","clean")
    AltHeadDirPath="~"; AltTailDirPath=".hio"; AltCleanTailDirPath=os.path.join(".hio","clean")
    TempHeadDir=tempfile.gettempdir(); TempPrefix="hio_"; TempSuffix="_test"; Perm=stat.S_ISVTX|stat.S_IRUSR|stat.S_IWUSR|stat.S_IXUSR
    Mode="r+"; Fext="text"
    def __init__(self,*,name="main",base="",temp=False,headDirPath=None,perm=None,reopen=True,clear=False,reuse=False,clean=False,filed=False,extensioned=False,mode=None,fext=None,**kwa):
        self.name=name; self.base=base; self.temp=bool(temp); self.headDirPath=headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm=perm if perm is not None else self.Perm; self.filed=filed; self.extensioned=extensioned; self.mode=mode or self.Mode; self.fext=fext or self.Fext
        self.path=None; self.file=None; self.opened=False
        if reopen: self.reopen(clear=clear,reuse=reuse,clean=clean,**kwa)
    def exists(self,name="",base="",headDirPath=None,clean=False,filed=False,extensioned=False,fext=None):
        if self.temp: return False
        return os.path.exists(self._mk(name,base,headDirPath or self.headDirPath,clean))
    def _mk(self,name,base,head,clean):
        return os.path.abspath(os.path.join(os.path.expanduser(head),self.CleanTailDirPath if clean else self.TailDirPath,base,name))
    def reopen(self,temp=None,headDirPath=None,perm=None,clear=False,reuse=False,clean=False,mode=None,fext=None,**kwa):
        if temp is not None: self.temp=bool(temp)
        if headDirPath is not None: self.headDirPath=headDirPath
        if self.opened: self.close(clear=clear)
        if not (reuse and self.path and os.path.exists(self.path)):
            if self.temp:
                head=tempfile.mkdtemp(prefix=self.TempPrefix,suffix=self.TempSuffix,dir=self.TempHeadDir)
                p=os.path.abspath(os.path.join(head,self.CleanTailDirPath if clean else self.TailDirPath,self.base,self.name))
            else:
                if self.headDirPath==self.HeadDirPath and not os.environ.get("SHIM_ALLOW_REAL"):
                    self.headDirPath=tempfile.mkdtemp(prefix="shim_head_")   # never touch /usr/local/var
                p=self._mk(self.name,self.base,self.headDirPath,clean)
            if self.filed:
                os.makedirs(os.path.dirname(p),exist_ok=True); p=p+"."+self.fext
                self.file=open(p,"r+b" if os.path.exists(p) else "w+b")
            else: os.makedirs(p,exist_ok=True)
            self.path=p
        self.opened=True
        return True
    def close(self,clear=False):
        if self.file:
            try: self.file.close()
            except Exception: pass
        self.file=None; self.opened=False
        if clear: self._clearPath()
        return not self.opened
    def _clearPath(self):
        p=self.path
        if p and os.path.exists(p) and p.startswith((tempfile.gettempdir()+os.sep,)):
            if os.path.isdir(p): shutil.rmtree(p)
            else: os.remove(p)
class FilerDoer:
    pass
