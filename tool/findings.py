"""Known findings: genuine defects that are recorded rather than repaired (known-findings.json)."""
import json, os
from weave import VERIF


def load():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}
