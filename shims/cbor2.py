"""Minimal pure-Python CBOR, stand-in for `cbor2`."""
import struct
class CBORError(Exception): pass
class CBORDecodeError(CBORError): pass
class CBORDecodeValueError(CBORDecodeError, ValueError): pass
class CBORDecodeEOF(CBORDecodeError, EOFError): pass
class CBOREncodeError(CBORError): pass
class CBOREncodeTypeError(CBOREncodeError, TypeError): pass
def _h(m,n):
    if n<24: return bytes([m<<5|n])
    for a,f,w in ((24,"B",8),(25,"H",16),(26,"I",32),(27,"Q",64)):
        if n<1<<w: return struct.pack(">B"+f,m<<5|a,n)
    raise OverflowError
def dumps(o, **kwa):
    if o is False: return b"\xf4"
    if o is True: return b"\xf5"
    if o is None: return b"\xf6"
    if isinstance(o,int):
        if o>=1<<64:
            b=o.to_bytes((o.bit_length()+7)//8,"big"); return b"\xc2"+_h(2,len(b))+b
        return _h(0,o) if o>=0 else _h(1,-1-o)
    if isinstance(o,float): return struct.pack(">Bd",0xfb,o)
    if isinstance(o,str): b=o.encode(); return _h(3,len(b))+b
    if isinstance(o,(bytes,bytearray,memoryview)): b=bytes(o); return _h(2,len(b))+b
    if isinstance(o,(list,tuple)): return _h(4,len(o))+b"".join(map(dumps,o))
    if isinstance(o,dict): return _h(5,len(o))+b"".join(dumps(k)+dumps(v) for k,v in o.items())
    raise CBOREncodeTypeError(f"cannot serialize type {type(o).__name__}")
def _l(b,i):
    if i>=len(b): raise CBORDecodeEOF("premature end of stream")
    m,a=b[i]>>5,b[i]&31; i+=1
    if m==7:
        if a in (20,21,22,23): return {20:False,21:True,22:None,23:None}[a],i
        if a==27: return struct.unpack(">d",b[i:i+8])[0],i+8
        if a==26: return struct.unpack(">f",b[i:i+4])[0],i+4
        raise CBORDecodeValueError("bad simple")
    if a<24: n=a
    elif a<28:
        w=1<<(a-24)
        if i+w>len(b): raise CBORDecodeEOF("premature end of stream")
        n=int.from_bytes(b[i:i+w],"big"); i+=w
    else: raise CBORDecodeValueError("unsupported subtype")
    if m==0: return n,i
    if m==1: return -1-n,i
    if m in (2,3):
        if i+n>len(b): raise CBORDecodeEOF("premature end of stream")
        v=bytes(b[i:i+n]); return (v if m==2 else v.decode()),i+n
    if m==4:
        r=[]
        for _ in range(n): v,i=_l(b,i); r.append(v)
        return r,i
    if m==5:
        r={}
        for _ in range(n): k,i=_l(b,i); v,i=_l(b,i); r[k]=v
        return r,i
    if m==6:
        v,i=_l(b,i); return (int.from_bytes(v,"big") if n==2 else v),i
def loads(b, **kwa):
    return _l(bytes(b),0)[0]
