"""Make the whole of keri importable on this sandbox's Python 3.12.

Real stand-ins live next to this file (lmdb, pysodium, blake3, cbor2, msgpack,
hio.base/help, cryptography).  Everything else keri imports that is absent here
(falcon, hio.core.*, ...) is replaced by an inert auto-stub: good enough to import,
never used to decide anything."""
import sys, os, types, importlib.abc, importlib.machinery
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("VERIF_REPO","/repo")
STUBS={"falcon","multidict","http_sfv","apispec","mnemonic","prettytable","semver","qrcode","multicommand",
       "jsonschema","referencing","yaml"}
class _Any:
    def __init__(self,*a,**k): pass
    def __call__(self,*a,**k): return _Any()
    def __getattr__(self,n):
        if n.startswith("__"): raise AttributeError(n)
        return _Any()
class _Stub(types.ModuleType):
    def __getattr__(self,n):
        if n.startswith("__"): raise AttributeError(n)
        c=type(n,(object,),{"__init__":lambda s,*a,**k: None}) if n[:1].isupper() else _Any()
        if n.endswith(("Error","Exception")) or n=="exceptions": c=type(n,(Exception,),{}) if n!="exceptions" else _Stub(self.__name__+".exceptions")
        if n in ("core","http","tcp","wiring","serving","clienting","serialing","testing","yaml_utils"): c=_Stub(self.__name__+"."+n)
        setattr(self,n,c); return c
class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self,name,path=None,target=None):
        top=name.split(".")[0]
        if top in STUBS or name.startswith("hio.core"):
            return importlib.machinery.ModuleSpec(name,self,is_package=True)
    def create_module(self,spec): m=_Stub(spec.name); m.__path__=[]; return m
    def exec_module(self,m):
        if m.__name__=="semver":
            import re
            class VersionInfo(tuple):
                @classmethod
                def parse(cls,s):
                    g=re.match(r"(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?$",s)
                    if not g: raise ValueError(s)
                    o=cls((int(g[1]),int(g[2]),int(g[3]),g[4] or "~")); return o
                major=property(lambda s:s[0]); minor=property(lambda s:s[1]); patch=property(lambda s:s[2])
            m.VersionInfo=VersionInfo; m.Version=VersionInfo
            m.compare=lambda a,b:(lambda x,y:(x>y)-(x<y))(VersionInfo.parse(a),VersionInfo.parse(b))
class _LazyAnn(importlib.machinery.SourceFileLoader):
    """Python 3.14 evaluates annotations lazily; retry a keri module with postponed annotations when 3.12 cannot."""
    _flags=0
    def source_to_code(self,data,path,*,_optimization=-1):
        return compile(data,path,"exec",flags=self._flags,dont_inherit=True,optimize=_optimization)
    def get_code(self,fullname):
        p=self.get_filename(fullname); return self.source_to_code(self.get_data(p),p)
    def exec_module(self,module):
        try: super().exec_module(module)
        except NameError:
            import __future__
            self._flags=__future__.annotations.compiler_flag
            super().exec_module(module)
class _KeriFinder(importlib.abc.MetaPathFinder):
    def find_spec(self,name,path=None,target=None):
        if not (name=="keri" or name.startswith("keri.")): return None
        sp=importlib.machinery.PathFinder.find_spec(name,path,target)
        if sp and type(sp.loader) is importlib.machinery.SourceFileLoader:
            sp.loader=_LazyAnn(sp.loader.name,sp.loader.path)
        return sp
def boot(repo=None):
    repo=repo or REPO
    sys.dont_write_bytecode=True
    sys.path[:]=[p for p in sys.path if os.path.abspath(p or ".") not in (repo,)]  # /repo/keri is only configuration
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if p not in sys.path: sys.path.append(p)
    for p in (HERE, os.path.join(repo,"src")):
        if p in sys.path: sys.path.remove(p)
        sys.path.insert(0,p)
    if not any(isinstance(f,_Finder) for f in sys.meta_path): sys.meta_path.append(_Finder())
    if not any(isinstance(f,_KeriFinder) for f in sys.meta_path): sys.meta_path.insert(0,_KeriFinder())
    return repo
