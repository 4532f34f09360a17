"""Generic rules.  A rule is a function (ctx) -> Result, registered for one or more properties."""
import importlib
import os
import pkgutil

REGISTRY = []


class Finding:
    """one violated obligation"""
    def __init__(self, where, detail, key=None, witness=None):
        self.where, self.detail, self.witness = where, detail, witness
        self.key = key or f'{where}: {detail}'


class Result:
    def __init__(self):
        self.obligations = 0        # places the rule looked at
        self.discharged = 0
        self.undecided = []
        self.findings = []
        self.samples = []

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 6:
            self.samples.append(sample)

    def skip(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def bad(self, where, detail, key=None, witness=None):
        self.obligations += 1
        self.findings.append(Finding(where, detail, key, witness))


def rule(props, title):
    def deco(f):
        f.props, f.title = props.split(), title
        REGISTRY.append(f)
        return f
    return deco


def load_all():
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        importlib.import_module(f'{__name__}.{m.name}')
    return REGISTRY
