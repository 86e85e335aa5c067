"""Findings that are recorded rather than repaired (known_findings.json)"""

import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
_cache = None


def _load():
    global _cache
    if _cache is None:
        try:
            with open(PATH) as fd:
                _cache = json.load(fd)
        except FileNotFoundError:
            _cache = {}
    return _cache


def listed(prop, ident):
    return any(f['property'] == prop and f['id'] == ident for f in _load().get('findings', ()))


def what(prop, ident):
    for f in _load().get('findings', ()):
        if f['property'] == prop and f['id'] == ident:
            return f['what']
