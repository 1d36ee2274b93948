"""Known findings: genuine defects recorded instead of repaired, each suppressed by its exact key only."""
import json, os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')


def load():
    with open(FILE) as fh:
        return json.load(fh)


def entries(pid):
    return {f['key']: f for f in load().get('findings', []) if f['property'] == pid}


def is_known(pid, key):
    return key in entries(pid)
