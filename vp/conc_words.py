"""fixed words of a seed sequence whose tag starts with #"""
import hashlib
def concword(ident, i):
    return int.from_bytes(hashlib.blake2b(("%s:%d" % (ident, i)).encode(), digest_size=4).digest(), "little")
