"""Findings, known-findings file, evidence writing and exit codes."""
import json
import os
import re
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Finding:
    """rule + construct identify the finding (no line numbers); where/message are for the reader."""

    def __init__(self, rule, construct, where, message, path=None):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message
        self.path = path or []

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Result:
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.units = []
        self.undecided = []

    def unsure(self, text):
        """an obligation the analysis cannot decide: no verdict on it; it is printed and counted in the evidence"""
        if text not in self.undecided:
            self.undecided.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """the analysis must have matched at least n instances, else it is broken"""
        from sa.ir import AnalysisBroken
        if self.counts.get(name, 0) < n:
            raise AnalysisBroken('only %d %s analysed (floor %d): the analysis no longer sees its subject'
                                 % (self.counts.get(name, 0), name, n))

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def add(self, rule, construct, where, message, path=None):
        f = Finding(rule, construct, where, message, path)
        if f.key not in [g.key for g in self.findings]:
            self.findings.append(f)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known:\s+property=(\w+)\s+key=(\S+)\s+(.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def slug(key):
    return re.sub(r'\s+', '_', key)


def main(prop, run, level='other'):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        res = run(tier)
    except Exception as e:
        traceback.print_exc()
        print('ERROR property=%s analysis broken: %s' % (prop, e))
        return 3
    kn = known(prop)
    for u in res.undecided:
        print('UNDECIDED property=%s %s' % (prop, u))
    new, old = [], []
    for f in res.findings:
        (old if slug(f.key) in kn else new).append(f)
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, n))
    for f in old:
        print('KNOWN-FINDING: property=%s [%s] %s' % (prop, f.key, kn[slug(f.key)]))
    lines = []
    for n, f in enumerate(new):
        p = os.path.join(rdir, '%s-%d.txt' % (prop, n))
        with open(p, 'w') as fh:
            fh.write('property: %s\nrule: %s\nconstruct: %s\nwhere: %s\nkey: %s\n\n%s\n' %
                     (prop, f.rule, f.construct, f.where, slug(f.key), f.message))
            for s in f.path:
                fh.write('  %s\n' % s)
        print('%s: [%s] %s: %s' % (f.where, f.rule, f.construct, f.message))
        for s in f.path[:12]:
            print('      %s' % s)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': dict({'explanation': ' '.join(res.rules) or 'static analysis of /repo sources'},
                           **res.counts),
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    if res.samples:
        ev['coverage']['samples'] = res.samples
    if res.units:
        ev['coverage']['units'] = res.units
    ev['coverage']['known_findings'] = len(old)
    ev['coverage']['undecided'] = len(res.undecided)
    if res.undecided:
        ev['coverage']['undecided_obligations'] = res.undecided[:50]
    if res.assumptions:
        ev['assumptions'] = res.assumptions
    tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', '%s.json' % prop))
    for l in lines:
        print(l)
    if not new:
        print('OK property=%s %s' % (prop, ' '.join('%s=%d' % (k, v) for k, v in sorted(res.counts.items()))))
    return 1 if new else 0
