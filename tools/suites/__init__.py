"""Registry of suites and of the suites that decide each property."""
from .base import Suite
from . import addr, auth, body, caps, dialog, dns, field, identity, pool, privacy, proxy, ratelimit, registrar, sdp, sdpcore, sdptext, secagree, sipmsg, stream, transaction, uri, usage, viacred, xmldoc

ASSUME = [
    "TLC evaluates the specifications correctly",
    "behaviour outside the bounds of the model and of the generated scripts is not observed",
]
SUITES = {}
PROPS = {}
for m in (addr, dialog, usage, ratelimit, auth, registrar, sdp, sdpcore, sdptext, uri, sipmsg, dns, identity, transaction, proxy, stream, pool, caps, privacy, field, body, xmldoc, secagree, viacred):
    for s in m.SUITES:
        SUITES[s.name] = s
        for p in s.props:
            PROPS.setdefault(p, []).append(s.name)
NOTES = {}
NA = {}
