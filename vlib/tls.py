"""Throw-away TLS material and client contexts."""
import os, ssl, subprocess


def make(dir, passphrase="pass-phrase"):
    os.makedirs(dir, exist_ok=True)
    p = lambda n: os.path.join(dir, n)
    with open(p("pass"), "w") as f:
        f.write(passphrase)
    run = lambda *a: subprocess.run(a, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=dir)
    run("openssl", "req", "-x509", "-newkey", "rsa:2048", "-keyout", "key.pem", "-out", "cert.pem", "-days", "30",
        "-subj", "/CN=localhost", "-addext", "subjectAltName=DNS:localhost,IP:127.0.0.1", "-passout", "file:pass")
    return p("cert.pem"), p("key.pem"), p("pass")


def ctx(cert):
    c = ssl.create_default_context(cafile=cert)
    return c
