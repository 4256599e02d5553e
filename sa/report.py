"""Obligations, verdicts and evidence of one check.

A verdict is three-valued.  A violation is reported only for a construct the
analysis resolved and found to break the rule; what it cannot resolve is an
undetermined obligation, which is printed and recorded but raises no alarm.
"""
import contextlib
import json
import os
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obligation(object):
    __slots__ = ('rule', 'construct', 'verdict', 'detail', 'where')

    def __init__(self, rule, construct, verdict, detail, where):
        self.rule = rule
        self.construct = construct
        self.verdict = verdict
        self.detail = detail
        self.where = where

    @property
    def key(self):
        return '%s@%s' % (self.rule, self.construct)


class Report(object):
    def __init__(self, pid, debug=False):
        self.pid = pid
        self.obs = []
        self.analysed = {}
        self.functions = set()
        self.notes = []
        self.t0 = time.time()
        self.debug = debug
        self.anchor_missing = []

    def ok(self, rule, construct, detail='', where=''):
        self.obs.append(Obligation(rule, construct, 'ok', detail, str(where)))

    def violation(self, rule, construct, detail, where=''):
        self.obs.append(Obligation(rule, construct, 'violation', detail, str(where)))

    def undet(self, rule, construct, detail, where=''):
        self.obs.append(Obligation(rule, construct, 'undetermined', detail, str(where)))

    def verdict(self, v, rule, construct, good='', bad='', where=''):
        """v: True -> ok, False -> violation, None -> undetermined"""
        if v is True:
            self.ok(rule, construct, good, where)
        elif v is False:
            self.violation(rule, construct, bad or good, where)
        else:
            self.undet(rule, construct, bad or good, where)
        return v

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def covers(self, engine):
        self.functions |= engine.functions_seen
        for n in engine.notes:
            if n not in self.notes:
                self.notes.append(n)

    @contextlib.contextmanager
    def guard(self, rule, construct):
        from .frontend import AnchorMissing
        from .engine import TooComplex
        try:
            yield
        except AnchorMissing as e:
            self.anchor_missing.append('%s: %s' % (construct, e))
        except TooComplex as e:
            if self.debug:
                traceback.print_exc()
            self.undet(rule, construct, 'analysis gave up: %s' % e)
        except RecursionError as e:
            self.undet(rule, construct, 'analysis gave up: recursion')
        except Exception as e:
            if self.debug:
                traceback.print_exc()
            self.undet(rule, construct, 'analysis error: %r' % (e,))

    def of(self, verdict):
        return [o for o in self.obs if o.verdict == verdict]


def known_findings(path=None):
    path = path or os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                parts = line[len('finding:'):].split(None, 2)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                out[(prop, key)] = parts[2] if len(parts) > 2 else ''
    return out
