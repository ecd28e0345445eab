"""Writes sim/certs (committed; only run again to change them)."""
import datetime as dt
import ipaddress
import os
import subprocess

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization as ser
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.x509.oid import NameOID

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "certs")
OLD, NEW = dt.datetime(2000, 1, 1), dt.datetime(2190, 1, 1)
LOCAL = [x509.DNSName("localhost"), x509.IPAddress(ipaddress.ip_address("127.0.0.1")), x509.IPAddress(ipaddress.ip_address("::1"))]


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


def cert(cn, key, issuer, ikey, ca=False, san=None, until=NEW):
    b = (x509.CertificateBuilder().subject_name(name(cn)).issuer_name(name(issuer)).public_key(key.public_key())
         .serial_number(x509.random_serial_number()).not_valid_before(OLD).not_valid_after(until)
         .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ikey.public_key()), critical=False))
    if san:
        b = b.add_extension(x509.SubjectAlternativeName(san), critical=False)
    return b.sign(ikey, hashes.SHA256())


def pem(c):
    return c.public_bytes(ser.Encoding.PEM)


def kpem(k, pw=None):
    enc = ser.BestAvailableEncryption(pw) if pw else ser.NoEncryption()
    return k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, enc)


def write(n, *parts):
    with open(os.path.join(D, n), "wb") as f:
        f.write(b"".join(parts))


os.makedirs(D, exist_ok=True)
keys = {}
for ca in ("ca", "otherca"):
    k = keys[ca] = rsa.generate_private_key(65537, 2048)
    c = cert(f"sim {ca}", k, f"sim {ca}", k, ca=True)
    write(f"{ca}.pem", pem(c))
    d = os.path.join(D, f"{ca}.d")
    os.makedirs(d, exist_ok=True)
    h = subprocess.check_output(["openssl", "x509", "-in", os.path.join(D, f"{ca}.pem"), "-noout", "-hash"], text=True).strip()
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    write(f"{ca}.d/{h}.0", pem(c))
for n, cn, ca, san, until in (
    ("server", "localhost", "ca", LOCAL, NEW), ("rogueserver", "localhost", "otherca", LOCAL, NEW),
    ("otherhost", "other.example", "ca", [x509.DNSName("other.example")], NEW),
    ("oldserver", "localhost", "ca", LOCAL, dt.datetime(2001, 1, 1)),
    ("client", "client", "ca", None, NEW), ("rogue", "client", "otherca", None, NEW), ("oldclient", "client", "ca", None, dt.datetime(2001, 1, 1)),
):
    k = rsa.generate_private_key(65537, 2048)
    c = cert(cn, k, f"sim {ca}", keys[ca], san=san, until=until)
    write(f"{n}.pem", kpem(k), pem(c))
    if n in ("server", "client"):
        write(f"{n}.crt", pem(c))
        write(f"{n}.key", kpem(k))
        write(f"{n}.enc", kpem(k, b"p4ss word"))
        write(f"{n}.both", kpem(k, b"p4ss word"), pem(c))
