"""Pure-Python BLAKE3 (hash mode), stand-in for the `blake3` wheel."""
import struct
_IV = (0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19)
_PERM = (2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8)
_M = 0xffffffff
_CS,_CE,_PA,_RO = 1,2,4,8
def _compress(cv, blk, ctr, blen, flags):
    s = list(cv)+list(_IV[:4])+[ctr & _M,(ctr>>32)&_M,blen,flags]
    m = list(struct.unpack("<16I", blk))
    for r in range(7):
        for i,(a,b,c,d) in enumerate(((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14))):
            x=s[a];y=s[b];z=s[c];w=s[d]
            x=(x+y+m[2*i])&_M; w^=x; w=((w>>16)|(w<<16))&_M
            z=(z+w)&_M; y^=z; y=((y>>12)|(y<<20))&_M
            x=(x+y+m[2*i+1])&_M; w^=x; w=((w>>8)|(w<<24))&_M
            z=(z+w)&_M; y^=z; y=((y>>7)|(y<<25))&_M
            s[a]=x;s[b]=y;s[c]=z;s[d]=w
        m=[m[i] for i in _PERM]
    return [s[i]^s[i+8] for i in range(8)]+[s[i+8]^cv[i] for i in range(8)]
def _chunk(data, idx):
    """returns (cv, blk, ctr, blen, flags) of final block un-compressed"""
    cv=_IV; n=max(1,(len(data)+63)//64)
    for i in range(n):
        b=data[i*64:i*64+64]; bl=len(b); b=b+bytes(64-bl)
        f=(_CS if i==0 else 0)|(_CE if i==n-1 else 0)
        if i==n-1: return (cv,b,idx,bl,f)
        cv=tuple(_compress(cv,b,idx,bl,f)[:8])
def _tree(data, idx):
    if len(data)<=1024: return _chunk(data, idx)
    n=(len(data)-1)//1024
    k=1<<(n.bit_length()-1)
    if k*1024>=len(data): k>>=1
    l=_tree(data[:k*1024], idx); r=_tree(data[k*1024:], idx+k)
    lc=_compress(*l)[:8]; rc=_compress(*r)[:8]
    return (_IV, struct.pack("<16I",*lc,*rc), 0, 64, _PA)
class blake3:
    def __init__(self, data=b"", **kwa): self._d=bytes(data)
    def update(self, d): self._d+=bytes(d); return self
    def digest(self, length=32, **kwa):
        cv,b,ctr,bl,f=_tree(self._d,0); out=b""; t=0
        while len(out)<length:
            c = t if True else ctr
            out+=struct.pack("<16I",*_compress(cv,b,c,bl,f|_RO)); t+=1
        return out[:length]
    def hexdigest(self, length=32): return self.digest(length).hex()
