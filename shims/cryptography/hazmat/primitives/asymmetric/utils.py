def encode_dss_signature(r,s): return b"DER"+r.to_bytes(40,"big")+s.to_bytes(40,"big")
def decode_dss_signature(d): return int.from_bytes(d[3:43],"big"),int.from_bytes(d[43:83],"big")
