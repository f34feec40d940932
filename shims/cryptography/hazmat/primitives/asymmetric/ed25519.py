class Ed25519PublicKey: pass
class Ed25519PrivateKey: pass
