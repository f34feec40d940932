def copyfunc(f,name=None):
    import types
    g=types.FunctionType(f.__code__,f.__globals__,name or f.__name__,f.__defaults__,f.__closure__); g.__kwdefaults__=f.__kwdefaults__; return g
def just(n,i,*a,default=None): return tuple((list(i)+[default]*n)[:n])
