"""Reference AES (securePassthrough) peer written from the protocol description, for C11 and C12."""

from __future__ import annotations

import base64
import hashlib
import json

from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding as apad
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

_KP = None


def keypair():
    global _KP
    if _KP is None:
        import os

        import sim

        with open(os.path.join(sim.DATA, "rsa_keypair.json")) as fh:
            _KP = json.load(fh)
    return dict(_KP)


def gen():
    k = rsa.generate_private_key(public_exponent=65537, key_size=1024)
    return {
        "private": base64.b64encode(k.private_bytes(serialization.Encoding.DER, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())).decode(),
        "public": base64.b64encode(k.public_key().public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)).decode(),
    }


def wrap_key(pem_text, keyiv):
    pub = serialization.load_pem_public_key(pem_text.encode())
    return base64.b64encode(pub.encrypt(keyiv, apad.PKCS1v15())).decode()


class Aes:
    def __init__(self, key, iv):
        self.key, self.iv = key, iv

    def enc(self, text):
        d = text.encode() if isinstance(text, str) else text
        n = 16 - len(d) % 16
        e = Cipher(algorithms.AES(self.key), modes.CBC(self.iv)).encryptor()
        return base64.b64encode(e.update(d + bytes([n]) * n) + e.finalize()).decode()

    def dec(self, b64):
        try:
            e = Cipher(algorithms.AES(self.key), modes.CBC(self.iv)).decryptor()
            d = e.update(base64.b64decode(b64)) + e.finalize()
            return d[: -d[-1]].decode()
        except Exception:
            return None


def b64(s):
    return base64.b64encode(s.encode()).decode()


def sha1(s):
    return hashlib.sha1(s.encode()).hexdigest()


def login_params(version, user, password):
    if version == 2:
        return {"username": b64(sha1(user)), "password2": b64(sha1(password))}
    return {"username": b64(sha1(user)), "password": b64(password)}


TAPO_DEFAULT = ("test@tp-link.net", "test")
