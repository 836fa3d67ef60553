"""Findings, instance counts and the verdict of one check."""
import hashlib
import json
import os


class Broken(Exception):
    """the analysis cannot give an answer (an anchor of the rule vanished)"""


class Check:
    def __init__(self, pid, ctx):
        self.pid, self.ctx = pid, ctx
        self.findings = {}
        self.counts = {}
        self.floors = []
        self.samples = []
        self.undecided = {}
        self.notes = []
        self.obligations = 0
        self.discharged = 0

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what=None, sample=None):
        """one rule instance examined and satisfied"""
        self.obligations += 1
        self.discharged += 1
        if what:
            self.count(what)
        if sample is not None and len(self.samples) < 12 and sample not in self.samples:
            self.samples.append(sample)

    def bad(self, rule, construct, where, msg, path=()):
        self.obligations += 1
        k = '%s | %s' % (rule, construct)
        f = self.findings.setdefault(k, {'rule': rule, 'construct': construct, 'where': [], 'message': msg, 'path': list(path)})
        if where not in f['where']:
            f['where'].append(where)

    def unsure(self, what, detail=''):
        self.obligations += 1
        self.undecided.setdefault(what, [])
        if detail not in self.undecided[what] and len(self.undecided[what]) < 40:
            self.undecided[what].append(detail)

    def floor(self, what, n):
        """the rule must have matched at least n instances of `what`"""
        if self.counts.get(what, 0) < n:
            self.floors.append('%s: %d instances found, at least %d expected' % (what, self.counts.get(what, 0), n))

    def need(self, qual):
        f = self.ctx.prog.find(qual)
        if f is None:
            raise Broken('anchor %s not found' % qual)
        return f
