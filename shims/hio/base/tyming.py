class Tymist:
    def __init__(self,tyme=0.0,tock=0.03125,**kwa): self.tyme=tyme; self.tock=tock
    def tymen(self): return lambda: self.tyme
    def tick(self,tock=None): self.tyme+=self.tock if tock is None else tock
class Tymee:
    def __init__(self,tymth=None,**kwa): self._tymth=tymth
    @property
    def tyme(self): return self._tymth() if self._tymth else 0.0
    @property
    def tymth(self): return self._tymth
    def wind(self,tymth): self._tymth=tymth
class Tymer(Tymee):
    def __init__(self,duration=0.0,start=None,**kwa):
        super().__init__(**kwa); self.duration=duration; self._start=start if start is not None else self.tyme
    def start(self,duration=None,start=None):
        if duration is not None: self.duration=duration
        self._start=self.tyme if start is None else start
    restart=start
    @property
    def expired(self): return self.tyme>=self._start+self.duration
    @property
    def elapsed(self): return self.tyme-self._start
