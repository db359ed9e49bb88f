"""Reference KLAP peer (written from the protocol description, not from kasa)."""

from __future__ import annotations

import hashlib
import json
import struct

from cryptography.hazmat.primitives import padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes


def md5(b):
    return hashlib.md5(b).digest()


def sha1(b):
    return hashlib.sha1(b).digest()


def sha256(b):
    return hashlib.sha256(b).digest()


def auth_hash(v2, un, pw):
    if v2:
        return sha256(sha1(un.encode()) + sha1(pw.encode()))
    return md5(md5(un.encode()) + md5(pw.encode()))


def hs1_hash(v2, ls, rs, ah):
    return sha256(ls + rs + ah) if v2 else sha256(ls + ah)


def hs2_hash(v2, ls, rs, ah):
    return sha256(rs + ls + ah) if v2 else sha256(rs + ah)


DEFAULTS = [("kasa@tp-link.net", "kasaSetup"), ("admin", "21232f297a57a5a743894a0e4a801fc3"), ("test@tp-link.net", "test"), ("admin", "admin")]


class Session:
    def __init__(self, ls, rs, ah):
        self.key = sha256(b"lsk" + ls + rs + ah)[:16]
        iv = sha256(b"iv" + ls + rs + ah)
        self.iv = iv[:12]
        self.seq0 = struct.unpack(">i", iv[-4:])[0]
        self.sig = sha256(b"ldk" + ls + rs + ah)[:28]
        self.seqs = []

    def _cipher(self, seq):
        return Cipher(algorithms.AES(self.key), modes.CBC(self.iv + struct.pack(">i", seq)))

    def decode(self, data, seq):
        """Plaintext of a request, or None when the signature is wrong."""
        ct = data[32:]
        if sha256(self.sig + struct.pack(">i", seq) + ct) != data[:32]:
            return None
        d = self._cipher(seq).decryptor()
        p = d.update(ct) + d.finalize()
        u = padding.PKCS7(128).unpadder()
        return (u.update(p) + u.finalize()).decode()

    def encode(self, text, seq):
        e = self._cipher(seq).encryptor()
        pad = padding.PKCS7(128).padder()
        raw = text if isinstance(text, bytes) else text.encode()
        p = pad.update(raw) + pad.finalize()
        return sha256(b"x") + e.update(p) + e.finalize()


def reply(session, seq, doc):
    return session.encode(doc if isinstance(doc, (str, bytes)) else json.dumps(doc), seq)
