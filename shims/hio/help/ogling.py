import logging
class Ogler:
    def __init__(self, **kwa):
        self.level=kwa.get("level", logging.CRITICAL); self.path=None; self.opened=False; self.prefix=kwa.get("prefix","")
        self.consoled=False; self.temp=True; self.filed=False; self.syslogged=False
    def getLogger(self, name="hio", level=None):
        lg=logging.getLogger("shim."+name); lg.setLevel(logging.CRITICAL+1); lg.propagate=False
        if not lg.handlers: lg.addHandler(logging.NullHandler())
        return lg
    def resetLevels(self, *a, **k): pass
    def reopen(self, *a, **k): self.opened=True; return True
    def close(self, *a, **k): self.opened=False
def initOgler(level=logging.CRITICAL, **kwa): return Ogler(level=level, **kwa)
