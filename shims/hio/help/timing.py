import time
class Timer:
    def __init__(self,duration=0.0,**kwa): self.start(duration)
    def start(self,duration=0.0,**kwa): self._d=duration; self._s=time.time()
    restart=start
    @property
    def expired(self): return time.time()-self._s>=self._d
MonoTimer=Timer
