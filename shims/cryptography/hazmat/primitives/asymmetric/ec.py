"""pure-Python ECDSA on secp256r1 / secp256k1 (stand-in)"""
import hashlib, os
from ....exceptions import InvalidSignature
from . import utils
class _Curve:
    key_size=256
class SECP256R1(_Curve):
    name="secp256r1"; p=2**256-2**224+2**192+2**96-1; a=p-3; b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    G=(0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
class SECP256K1(_Curve):
    name="secp256k1"; p=2**256-2**32-977; a=0; b=7; n=0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
    G=(0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
def _add(c,P,Q):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%c.p==0: return None
        l=(3*P[0]*P[0]+c.a)*pow(2*P[1],-1,c.p)%c.p
    else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,c.p)%c.p
    x=(l*l-P[0]-Q[0])%c.p; return x,(l*(P[0]-x)-P[1])%c.p
def _mul(c,k,P):
    R=None
    while k:
        if k&1: R=_add(c,R,P)
        P=_add(c,P,P); k>>=1
    return R
class ECDSA:
    def __init__(self,h): pass
class EllipticCurvePublicKey:
    def __init__(self,c,P): self.c=c; self.P=P
    @classmethod
    def from_encoded_point(cls,curve,data):
        data=bytes(data)
        if len(data)!=33 or data[0] not in (2,3): raise ValueError("Invalid point")
        x=int.from_bytes(data[1:],"big"); c=curve; y2=(x**3+c.a*x+c.b)%c.p; y=pow(y2,(c.p+1)//4,c.p)
        if y*y%c.p!=y2: raise ValueError("Invalid EC key")
        if y&1!=data[0]&1: y=c.p-y
        return cls(c,(x,y))
    def public_bytes(self,encoding=None,format=None): return bytes([2+(self.P[1]&1)])+self.P[0].to_bytes(32,"big")
    def verify(self,sig,data,alg):
        r,s=utils.decode_dss_signature(sig); c=self.c
        if not (0<r<c.n and 0<s<c.n): raise InvalidSignature()
        z=int.from_bytes(hashlib.sha256(bytes(data)).digest(),"big"); w=pow(s,-1,c.n)
        P=_add(c,_mul(c,z*w%c.n,c.G),_mul(c,r*w%c.n,self.P))
        if P is None or P[0]%c.n!=r: raise InvalidSignature()
class _Priv:
    def __init__(self,d,c): self.d=d; self.c=c
    def public_key(self): return EllipticCurvePublicKey(self.c,_mul(self.c,self.d,self.c.G))
    def sign(self,data,alg):
        c=self.c; z=int.from_bytes(hashlib.sha256(bytes(data)).digest(),"big")
        while True:
            k=int.from_bytes(os.urandom(32),"big")%c.n
            r=_mul(c,k,c.G)[0]%c.n; s=pow(k,-1,c.n)*(z+r*self.d)%c.n
            if r and s: return utils.encode_dss_signature(r,s)
def derive_private_key(d,c): return _Priv(d,c)
