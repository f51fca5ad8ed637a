"""Certificates: the dummy ones of the repository and generated ones, and the reference fingerprint."""
import atexit
import base64
import datetime
import functools
import hashlib
import ipaddress
import os
import re
import shutil
import tempfile

DIR = '/repo/certificates'


@functools.lru_cache(None)
def dummy(which):
    """(certificate, key) of dummy_vtn or dummy_ven as PEM bytes."""
    return tuple(open('%s/dummy_%s.%s' % (DIR, which, ext), 'rb').read() for ext in ('crt', 'key'))


def der(pem):
    text = pem.decode() if isinstance(pem, bytes) else pem
    body = re.search('-----BEGIN CERTIFICATE-----(.*?)-----END CERTIFICATE-----', text, re.S).group(1)
    return base64.b64decode(''.join(body.split()))


def fingerprint(pem):
    """The OpenADR fingerprint, independent of the code under test."""
    digest = hashlib.sha256(der(pem)).digest()[-10:]
    return ':'.join('%02X' % b for b in digest)


@functools.lru_cache(None)
def key(kind='rsa2048', n=0):
    from cryptography.hazmat.primitives.asymmetric import rsa, ec
    if kind.startswith('rsa'):
        return rsa.generate_private_key(public_exponent=65537, key_size=int(kind[3:]))
    return ec.generate_private_key({'ec256': ec.SECP256R1, 'ec384': ec.SECP384R1, 'ec521': ec.SECP521R1}[kind]())


def make(subject='test', kind='rsa2048', n=0, serial=1, domains=(), issuer=None, days=36500, hash_='SHA256', ca=None, since=2020):
    """A certificate as (certificate, key) PEM bytes; issuer is a pair made by this function, or None. The domains may be IP addresses."""
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.x509.oid import NameOID
    k = key(kind, n)
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, subject)])
    if issuer:
        issuing = x509.load_pem_x509_certificate(issuer[0])
        ca_key = serialization.load_pem_private_key(issuer[1], None)
        issuer_name = issuing.subject
    else:
        ca_key, issuer_name = k, name
    b = x509.CertificateBuilder().subject_name(name).issuer_name(issuer_name).public_key(k.public_key()).serial_number(serial)
    b = b.not_valid_before(datetime.datetime(since, 1, 1)).not_valid_after(datetime.datetime(since, 1, 1) + datetime.timedelta(days=days))
    if domains:
        b = b.add_extension(x509.SubjectAlternativeName([
            x509.IPAddress(ipaddress.ip_address(d)) if d[0].isdigit() else x509.DNSName(d) for d in domains]), critical=False)
    if not issuer if ca is None else ca:
        b = b.add_extension(x509.BasicConstraints(ca=True, path_length=None), critical=True)
    cert = b.sign(ca_key, getattr(hashes, hash_)())
    return cert.public_bytes(serialization.Encoding.PEM), pem_key(k)


def pem_key(k, passphrase=None):
    from cryptography.hazmat.primitives import serialization as s
    return k.private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8 if passphrase else s.PrivateFormat.TraditionalOpenSSL,
                           s.BestAvailableEncryption(passphrase) if passphrase else s.NoEncryption())


@functools.lru_cache(None)
def encrypted(which, passphrase):
    """The dummy key, encrypted with a passphrase."""
    from cryptography.hazmat.primitives import serialization as s
    return pem_key(s.load_pem_private_key(dummy(which)[1], None), passphrase)


_dirs = {}


def scratch():
    """A scratch directory of this process, removed at its end."""
    pid = os.getpid()
    if pid not in _dirs:
        _dirs[pid] = tempfile.mkdtemp(prefix='pbt-')
        atexit.register(_remove, pid)
    return _dirs[pid]


def _remove(pid):
    if os.getpid() == pid:
        shutil.rmtree(_dirs[pid], ignore_errors=True)


def cleanup():
    if os.getpid() in _dirs:
        shutil.rmtree(_dirs.pop(os.getpid()), ignore_errors=True)


@functools.lru_cache(None)
def as_file(content):
    path = os.path.join(scratch(), hashlib.sha256(content).hexdigest()[:16] + '.pem')
    with open(path, 'wb') as f:
        f.write(content)
    return path


@functools.lru_cache(None)
def generated(n):
    """A self-signed pair with a small key: signing with these is fast."""
    return make('generated %d' % n, 'rsa1024', n, serial=n + 1)
