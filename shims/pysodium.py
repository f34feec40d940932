"""Stand-in for `pysodium` on OpenSSL's libcrypto (ctypes) and pure Python.

Real Ed25519 / X25519 / salsa20-poly1305; `crypto_pwhash` is NOT argon2id (scrypt stand-in)."""
import ctypes, hashlib, os, struct
crypto_sign_SEEDBYTES=32; crypto_sign_PUBLICKEYBYTES=32; crypto_sign_SECRETKEYBYTES=64; crypto_sign_BYTES=64
crypto_box_NONCEBYTES=24; crypto_box_MACBYTES=16; crypto_box_SEEDBYTES=32; crypto_box_SEALBYTES=48
crypto_box_PUBLICKEYBYTES=32; crypto_box_SECRETKEYBYTES=32
crypto_pwhash_SALTBYTES=16; crypto_pwhash_ALG_ARGON2ID13=2; crypto_generichash_BYTES=32
crypto_pwhash_OPSLIMIT_MIN=1; crypto_pwhash_MEMLIMIT_MIN=8192
crypto_pwhash_OPSLIMIT_INTERACTIVE=2; crypto_pwhash_MEMLIMIT_INTERACTIVE=67108864
crypto_pwhash_OPSLIMIT_MODERATE=3; crypto_pwhash_MEMLIMIT_MODERATE=268435456
crypto_pwhash_OPSLIMIT_SENSITIVE=4; crypto_pwhash_MEMLIMIT_SENSITIVE=1073741824
_c=ctypes.CDLL("libcrypto.so.3")
for _f in ("EVP_PKEY_new_raw_private_key","EVP_PKEY_new_raw_public_key","EVP_MD_CTX_new","EVP_PKEY_CTX_new"):
    getattr(_c,_f).restype=ctypes.c_void_p
_ED,_X=1087,1034
_P=2**255-19
def randombytes(n): return os.urandom(n)
def _priv(t,seed):
    return _c.EVP_PKEY_new_raw_private_key(t,None,bytes(seed),ctypes.c_size_t(32))
def _pub(t,pk):
    return _c.EVP_PKEY_new_raw_public_key(t,None,bytes(pk),ctypes.c_size_t(32))
def _getpub(k):
    b=ctypes.create_string_buffer(32); n=ctypes.c_size_t(32)
    assert _c.EVP_PKEY_get_raw_public_key(ctypes.c_void_p(k),b,ctypes.byref(n))==1
    return b.raw
def crypto_sign_seed_keypair(seed):
    if len(seed)!=32: raise ValueError("bad seed size")
    k=_priv(_ED,seed); pk=_getpub(k); _c.EVP_PKEY_free(ctypes.c_void_p(k))
    return pk, bytes(seed)+pk
def crypto_sign_keypair(): return crypto_sign_seed_keypair(os.urandom(32))
def crypto_sign_sk_to_seed(sk): return bytes(sk[:32])
def crypto_sign_sk_to_pk(sk): return bytes(sk[32:])
def crypto_sign_detached(m, sk):
    if sk is None or len(sk)!=64: raise ValueError("bad sk")
    k=_priv(_ED,sk[:32]); ctx=_c.EVP_MD_CTX_new()
    sig=ctypes.create_string_buffer(64); n=ctypes.c_size_t(64); m=bytes(m)
    assert _c.EVP_DigestSignInit(ctypes.c_void_p(ctx),None,None,None,ctypes.c_void_p(k))==1
    assert _c.EVP_DigestSign(ctypes.c_void_p(ctx),sig,ctypes.byref(n),m,ctypes.c_size_t(len(m)))==1
    _c.EVP_MD_CTX_free(ctypes.c_void_p(ctx)); _c.EVP_PKEY_free(ctypes.c_void_p(k))
    return sig.raw
def crypto_sign(m, sk): return crypto_sign_detached(m,sk)+bytes(m)
def crypto_sign_verify_detached(sig, m, pk):
    if sig is None or len(sig)!=64 or len(pk)!=32: raise ValueError("bad size")
    k=_pub(_ED,pk)
    if not k: raise ValueError("bad key")
    ctx=_c.EVP_MD_CTX_new(); m=bytes(m)
    assert _c.EVP_DigestVerifyInit(ctypes.c_void_p(ctx),None,None,None,ctypes.c_void_p(k))==1
    r=_c.EVP_DigestVerify(ctypes.c_void_p(ctx),bytes(sig),ctypes.c_size_t(64),m,ctypes.c_size_t(len(m)))
    _c.EVP_MD_CTX_free(ctypes.c_void_p(ctx)); _c.EVP_PKEY_free(ctypes.c_void_p(k))
    if r!=1: raise ValueError("signature verification failed")
def crypto_sign_pk_to_box_pk(pk):
    y=int.from_bytes(pk,"little")&((1<<255)-1)
    return ((1+y)*pow(1-y,_P-2,_P)%_P).to_bytes(32,"little")
def crypto_sign_sk_to_box_sk(sk):
    h=bytearray(hashlib.sha512(bytes(sk[:32])).digest()[:32]); h[0]&=248; h[31]&=127; h[31]|=64
    return bytes(h)
def _mul(n,u):
    n=bytearray(n); n[0]&=248; n[31]&=127; n[31]|=64
    k=int.from_bytes(n,"little"); u=int.from_bytes(u,"little")&((1<<255)-1)
    x1,x2,z2,x3,z3,s=u,1,0,u,1,0
    for t in range(254,-1,-1):
        b=(k>>t)&1
        if s^b: x2,x3,z2,z3=x3,x2,z3,z2
        s=b
        A=x2+z2;AA=A*A%_P;B=x2-z2;BB=B*B%_P;E=AA-BB;C=x3+z3;D=x3-z3;DA=D*A%_P;CB=C*B%_P
        x3=(DA+CB)**2%_P; z3=x1*(DA-CB)**2%_P; x2=AA*BB%_P; z2=E*(AA+121665*E)%_P
    if s: x2,x3,z2,z3=x3,x2,z3,z2
    return (x2*pow(z2,_P-2,_P)%_P).to_bytes(32,"little")
def crypto_scalarmult_curve25519_base(n): return _mul(n,(9).to_bytes(32,"little"))
crypto_scalarmult_base=crypto_scalarmult_curve25519_base
def crypto_scalarmult_curve25519(n,p): return _mul(n,p)
def crypto_box_seed_keypair(seed):
    sk=hashlib.sha512(bytes(seed)).digest()[:32]; return crypto_scalarmult_base(sk), sk
def crypto_box_keypair():
    sk=os.urandom(32); return crypto_scalarmult_base(sk), sk
_S=struct.unpack("<4I",b"expand 32-byte k"); _M=0xffffffff
def _rounds(x):
    x=list(x)
    def q(a,b,c,d):
        t=(x[a]+x[d])&_M; x[b]^=((t<<7)|(t>>25))&_M
        t=(x[b]+x[a])&_M; x[c]^=((t<<9)|(t>>23))&_M
        t=(x[c]+x[b])&_M; x[d]^=((t<<13)|(t>>19))&_M
        t=(x[d]+x[c])&_M; x[a]^=((t<<18)|(t>>14))&_M
    for _ in range(10):
        q(0,4,8,12);q(5,9,13,1);q(10,14,2,6);q(15,3,7,11)
        q(0,1,2,3);q(5,6,7,4);q(10,11,8,9);q(15,12,13,14)
    return x
def _state(k,i):
    k=struct.unpack("<8I",k); i=struct.unpack("<4I",i)
    return (_S[0],*k[:4],_S[1],*i,_S[2],*k[4:],_S[3])
def _hsalsa(k,n):
    x=_rounds(_state(k,n)); return struct.pack("<8I",*(x[j] for j in (0,5,10,15,6,7,8,9)))
def _stream(k,n,ln):
    k=_hsalsa(k,n[:16]); out=b""; c=0
    while len(out)<ln:
        s=_state(k,n[16:]+struct.pack("<Q",c)); x=_rounds(s)
        out+=struct.pack("<16I",*((a+b)&_M for a,b in zip(x,s))); c+=1
    return out[:ln]
def _poly(k,m):
    r=int.from_bytes(k[:16],"little")&0x0ffffffc0ffffffc0ffffffc0fffffff; s=int.from_bytes(k[16:32],"little"); a=0
    for i in range(0,len(m),16): a=(a+int.from_bytes(m[i:i+16]+b"\1","little"))*r%((1<<130)-5)
    return ((a+s)&((1<<128)-1)).to_bytes(16,"little")
def crypto_box_beforenm(pk,sk): return _hsalsa(_mul(sk,pk),bytes(16))
def crypto_box_afternm(m,n,k):
    st=_stream(k,n,32+len(m)); c=bytes(a^b for a,b in zip(m,st[32:])); return _poly(st[:32],c)+c
def crypto_box_open_afternm(c,n,k):
    st=_stream(k,n,32+len(c)-16)
    if _poly(st[:32],bytes(c[16:]))!=bytes(c[:16]): raise ValueError("decrypt failed")
    return bytes(a^b for a,b in zip(c[16:],st[32:]))
def crypto_box(m,n,pk,sk): return crypto_box_afternm(m,n,crypto_box_beforenm(pk,sk))
def crypto_box_open(c,n,pk,sk): return crypto_box_open_afternm(c,n,crypto_box_beforenm(pk,sk))
def crypto_box_detached(m,n,pk,sk):
    r=crypto_box(m,n,pk,sk); return r[16:],r[:16]
def crypto_box_open_detached(c,mac,n,pk,sk): return crypto_box_open(mac+c,n,pk,sk)
def crypto_box_seal(m,pk):
    epk,esk=crypto_box_keypair()
    n=hashlib.blake2b(epk+bytes(pk),digest_size=24).digest(); return epk+crypto_box(bytes(m),n,pk,esk)
def crypto_box_seal_open(c,pk,sk):
    if len(c)<48: raise ValueError("short")
    n=hashlib.blake2b(bytes(c[:32])+bytes(pk),digest_size=24).digest(); return crypto_box_open(bytes(c[32:]),n,bytes(c[:32]),sk)
def _h(x,n):
    if n<=64: return hashlib.blake2b(struct.pack("<I",n)+x,digest_size=n).digest()
    v=hashlib.blake2b(struct.pack("<I",n)+x,digest_size=64).digest(); o=v[:32]; r=n-32
    while r>64: v=hashlib.blake2b(v,digest_size=64).digest(); o+=v[:32]; r-=32
    return o+hashlib.blake2b(v,digest_size=r).digest()
_Q=(1<<64)-1; _L=(1<<32)-1
def _gb(v,a,b,c,d):
    A=v[a];B=v[b];C=v[c];D=v[d]
    A=(A+B+2*(A&_L)*(B&_L))&_Q; D^=A; D=((D>>32)|(D<<32))&_Q
    C=(C+D+2*(C&_L)*(D&_L))&_Q; B^=C; B=((B>>24)|(B<<40))&_Q
    A=(A+B+2*(A&_L)*(B&_L))&_Q; D^=A; D=((D>>16)|(D<<48))&_Q
    C=(C+D+2*(C&_L)*(D&_L))&_Q; B^=C; B=((B>>63)|(B<<1))&_Q
    v[a]=A;v[b]=B;v[c]=C;v[d]=D
_PP=((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14))
def _G(X,Y):
    R=[x^y for x,y in zip(X,Y)]; Z=list(R)
    for i in range(8):
        ix=range(16*i,16*i+16)
        for p in _PP: _gb(Z,*(ix[k] for k in p))
    for i in range(8):
        ix=[2*i+16*j+k for j in range(8) for k in (0,1)]
        for p in _PP: _gb(Z,*(ix[k] for k in p))
    return [x^y for x,y in zip(R,Z)]
def _argon2id(P,S,t,m,tag):
    H0=hashlib.blake2b(struct.pack("<6I",1,tag,m,t,0x13,2)+struct.pack("<I",len(P))+P+struct.pack("<I",len(S))+S+struct.pack("<II",0,0),digest_size=64).digest()
    m=4*(m//4); q=m; sl=q//4; U=lambda b: list(struct.unpack("<128Q",b))
    B=[None]*q
    B[0]=U(_h(H0+struct.pack("<II",0,0),1024)); B[1]=U(_h(H0+struct.pack("<II",1,0),1024))
    for r in range(t):
        for s in range(4):
            ind = r==0 and s<2; addr=None; ctr=0
            for i in range(sl):
                idx=s*sl+i
                if ind and i%128==0:
                    ctr+=1; inp=[r,0,s,m,t,2,ctr]+[0]*121; z=[0]*128; addr=_G(z,_G(z,inp))
                if r==0 and idx<2: continue
                prev=B[idx-1]
                j=addr[i%128] if ind else prev[0]
                J1=j&_L
                if r==0: area=idx-1; st=0
                else: area=q-sl+i-1; st=((s+1)%4)*sl
                x=J1*J1>>32; y=area*x>>32; z=(st+area-1-y)%q
                n=_G(prev,B[z])
                B[idx]=n if r==0 else [a^b for a,b in zip(n,B[idx])]
    return _h(struct.pack("<128Q",*B[q-1]),tag)
def crypto_pwhash(outlen,passwd,salt,opslimit,memlimit,alg=2):
    """argon2id for small memory; a pbkdf2 stand-in above 1 MiB (pure Python would take minutes)"""
    if hasattr(passwd,"encode"): passwd=passwd.encode()
    passwd=bytes(passwd)
    if memlimit<=1<<20: return _argon2id(passwd,bytes(salt),opslimit,memlimit//1024,outlen)
    return hashlib.pbkdf2_hmac("sha256",passwd+struct.pack("<QQ",opslimit,memlimit),bytes(salt),1,outlen)
def crypto_generichash(m,k=b"",outlen=32): return hashlib.blake2b(m,key=k,digest_size=outlen).digest()
def crypto_hash_sha256(m): return hashlib.sha256(m).digest()
def crypto_hash_sha512(m): return hashlib.sha512(m).digest()
