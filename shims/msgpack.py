"""Minimal pure-Python MessagePack, stand-in for `msgpack`."""
import struct
class UnpackException(Exception): pass
class ExtraData(ValueError):
    def __init__(self, unpacked, extra): self.unpacked=unpacked; self.extra=extra
    def __str__(self): return "unpack(b) received extra data."
class FormatError(ValueError, UnpackException): pass
class UnpackValueError(ValueError, UnpackException): pass
class exceptions: ExtraData=ExtraData; UnpackException=UnpackException
def _p(o):
    if o is None: return b"\xc0"
    if o is True: return b"\xc3"
    if o is False: return b"\xc2"
    if isinstance(o,int):
        if 0<=o<128: return struct.pack("B",o)
        if -32<=o<0: return struct.pack("b",o)
        if o>=0:
            for t,f,m in ((0xcc,"B",8),(0xcd,"H",16),(0xce,"I",32),(0xcf,"Q",64)):
                if o<1<<m: return struct.pack(">B"+f,t,o)
        else:
            for t,f,m in ((0xd0,"b",7),(0xd1,"h",15),(0xd2,"i",31),(0xd3,"q",63)):
                if o>=-(1<<m): return struct.pack(">B"+f,t,o)
        raise OverflowError("Integer value out of range")
    if isinstance(o,float): return struct.pack(">Bd",0xcb,o)
    if isinstance(o,str):
        b=o.encode(); n=len(b)
        if n<32: return bytes([0xa0|n])+b
        if n<256: return struct.pack(">BB",0xd9,n)+b
        if n<65536: return struct.pack(">BH",0xda,n)+b
        return struct.pack(">BI",0xdb,n)+b
    if isinstance(o,(bytes,bytearray,memoryview)):
        b=bytes(o); n=len(b)
        if n<256: return struct.pack(">BB",0xc4,n)+b
        if n<65536: return struct.pack(">BH",0xc5,n)+b
        return struct.pack(">BI",0xc6,n)+b
    if isinstance(o,(list,tuple)):
        n=len(o); h=bytes([0x90|n]) if n<16 else struct.pack(">BH",0xdc,n) if n<65536 else struct.pack(">BI",0xdd,n)
        return h+b"".join(map(_p,o))
    if isinstance(o,dict):
        n=len(o); h=bytes([0x80|n]) if n<16 else struct.pack(">BH",0xde,n) if n<65536 else struct.pack(">BI",0xdf,n)
        return h+b"".join(_p(k)+_p(v) for k,v in o.items())
    raise TypeError(f"can not serialize {type(o).__name__!r} object")
def packb(o, **kwa): return _p(o)
dumps=packb
def _u(b,i):
    try: t=b[i]
    except IndexError: raise UnpackValueError("Unpack failed: incomplete input")
    i+=1
    def take(n):
        if i+n>len(b): raise UnpackValueError("Unpack failed: incomplete input")
        return bytes(b[i:i+n]), i+n
    def num(f,n):
        nonlocal i
        if i+n>len(b): raise UnpackValueError("Unpack failed: incomplete input")
        v=struct.unpack(">"+f,b[i:i+n])[0]; i+=n; return v
    def arr(n):
        nonlocal i
        r=[]
        for _ in range(n): v,i=_u(b,i); r.append(v)
        return r,i
    def mp(n):
        nonlocal i
        r={}
        for _ in range(n):
            k,i=_u(b,i); v,i=_u(b,i)
            if not isinstance(k,(str,bytes)): raise ValueError("%s is not allowed for map key when strict_map_key=True"%type(k).__name__)
            r[k]=v
        return r,i
    def st(n):
        r,j=take(n); return r.decode(),j
    if t<0x80: return t,i
    if t>=0xe0: return t-256,i
    if t<0x90: return mp(t&15)
    if t<0xa0: return arr(t&15)
    if t<0xc0: return st(t&31)
    if t==0xc0: return None,i
    if t==0xc2: return False,i
    if t==0xc3: return True,i
    if t in (0xc4,0xc5,0xc6): return take(num("BHI"[t-0xc4],1<<(t-0xc4)))
    if t==0xca: return num("f",4),i
    if t==0xcb: return num("d",8),i
    if 0xcc<=t<=0xcf: return num("BHIQ"[t-0xcc],1<<(t-0xcc)),i
    if 0xd0<=t<=0xd3: return num("bhiq"[t-0xd0],1<<(t-0xd0)),i
    if 0xd9<=t<=0xdb: return st(num("BHI"[t-0xd9],1<<(t-0xd9)))
    if t in (0xdc,0xdd): return arr(num("HI"[t-0xdc],2<<(t-0xdc)))
    if t in (0xde,0xdf): return mp(num("HI"[t-0xde],2<<(t-0xde)))
    raise FormatError("bad type %x"%t)
def unpackb(b, **kwa):
    b=bytes(b); v,i=_u(b,0)
    if i!=len(b): raise ExtraData(v,b[i:])
    return v
loads=unpackb
