"""Base64url and builder references. Requirements only; never executed."""
import base64


def encode(b):
    return base64.b64encode(b, b'-_')


def decode(s):
    return base64.b64decode(s + '===', b'-_')
