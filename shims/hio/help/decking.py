from collections import deque
class Deck(deque):
    def __bool__(self): return len(self)>0
    def push(self, x, *a):
        if x is not None: self.append(x)
    def pull(self, emptive=False):
        try: return self.popleft()
        except IndexError:
            if not emptive: raise
            return None
    def __repr__(self): return "Deck(%r)"%list(self)
