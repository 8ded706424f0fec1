#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds igakit from /repo's working tree, runs the property's generated
executions under its monitors, writes evidence/<id>.json.
Exit 0: held on everything observed; 1: violated; 2: inconclusive."""
import argparse, ast, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import build as B
from vlib import registry

HANG = 150          # seconds for one case (they take milliseconds)


def known_findings():
    """key -> property, for the `finding:` lines of known_findings.txt"""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in line[8:].split()[:2])
                out[kv['key']] = kv['property']
    return out


class Worker(object):
    def __init__(self, cfg, dest, env, tmp, n):
        self.cfg = dict(cfg)
        self.dest, self.env, self.tmp = dest, env, tmp
        self.n = n
        self.restarts = 0
        self.log = os.path.join(tmp, 'log.%d' % n)
        self.err = os.path.join(tmp, 'err.%d' % n)
        self.out = dict(fails=[], knowns={}, samples=[], done=0, events={}, keys=set(), cut=0, noend=0,
                        digests={})
        self.start()

    def start(self):
        self.cfg['log'] = self.log + '.%d' % self.restarts
        self.cfg['tmp'] = self.tmp
        open(self.cfg['log'], 'w').close()
        cmd = B.python_cmd(self.dest, os.path.join(HERE, 'vlib', 'worker.py'), json.dumps(self.cfg))
        self.fh = open(self.err, 'wb')
        self.p = subprocess.Popen(cmd, env=self.env, stdout=self.fh, stderr=self.fh, cwd=self.tmp,
                                  start_new_session=True)
        self.t0 = self.last = time.time()
        self.size = 0

    def poll(self):
        """True when finished for good."""
        size = os.path.getsize(self.cfg['log'])
        now = time.time()
        if size != self.size:
            self.size, self.last = size, now
        rc = self.p.poll()
        hung = False
        if rc is None:
            if now - self.last < HANG:
                return False
            hung = True
            os.killpg(self.p.pid, signal.SIGKILL)
            rc = self.p.wait()
        self.fh.close()
        current, ended, ndone = None, False, 0
        for line in open(self.cfg['log']):
            k, rest = line[0], line[2:]
            if k == 'S':
                if current is not None:
                    ndone += 1
                current = int(rest)
            elif k == 'V':
                self.out['fails'].append(json.loads(rest))
            elif k == 'K':
                key, what, idx = json.loads(rest)
                self.out['knowns'].setdefault(key, what)
            elif k == 'D':
                self.out['samples'].append(json.loads(rest))
            elif k == 'X':
                idx, digest = json.loads(rest)
                self.out['digests'][idx] = digest
            elif k == 'T':
                self.out['cut'] += 1
            elif k == 'E':
                done, ev, keys = json.loads(rest)
                ended = True
                self.out['done'] += done
                for a, b in ev.items():
                    self.out['events'][a] = self.out['events'].get(a, 0) + b
                self.out['keys'].update(keys)
        tail = open(self.err, 'rb').read()[-6000:].decode('utf-8', 'replace')
        if ended and rc == 0:
            return True
        if ended and rc == 66:      # ThreadSanitizer found something after the run
            self.out['fails'].append([-1, 'sanitizer report', {'stderr': head(self.err)}, {}])
            return True
        if current is None:
            self.out['noend'] += 1
            self.out['startup'] = tail[-1500:]
            return True
        self.out['done'] += ndone
        why = 'no answer for %d s' % HANG if hung else (
            'killed by signal %d' % -rc if rc < 0 else 'process exited with %d' % rc)
        if rc == -9 and not hung:   # the memory guard: not a verdict
            self.out['noend'] += 1
            self.out['startup'] = why + ' during case %d' % current
            return True
        self.out['fails'].append([current, 'the process did not survive the case: ' + why,
                                  {'stderr': head(self.err)}, {}])
        left = self.cfg['cases'][self.cfg['cases'].index(current) + 1:]
        self.restarts += 1
        if left and self.restarts < 4:
            self.cfg['cases'] = left
            self.start()
            return False
        return True


def head(path):
    t = open(path, 'rb').read().decode('utf-8', 'replace')
    return t if len(t) < 5000 else t[:3500] + '\n...\n' + t[-1400:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int, default=None)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--evidence', default=None)
    a = ap.parse_args()
    t0 = time.time()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    prop = a.prop.upper()
    only = a.only
    if a.replay:
        r = json.load(open(a.replay))
        prop, seed, tier, only = r['property'], r['seed'], r['tier'], r['case']
    meta = registry.PROPS[prop]
    evdir = a.evidence or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    try:
        stages = [(f, B.build(f)) for f in meta.flavours(tier)]
    except B.BuildError as e:
        print('inconclusive: igakit does not build\n' + str(e))
        return 2
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return run(a, prop, meta, stages, tmp, seed, tier, only, evdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, prop, meta, stages, tmp, seed, tier, only, evdir, t0):
    known = known_findings()
    tot = dict(fails=[], knowns={}, samples=[], done=0, events={}, keys=set(), cut=0, noend=0)
    startup = ''
    per = {}
    digests, compared = {}, 0       # case -> (flavour, digest of its outputs)
    for flavour, (dest, extra) in stages:
        n = meta.count(tier, flavour)
        cases = list(range(n)) if only is None else [only]
        j = max(1, min(a.j, len(cases), meta.jobs))
        extra = dict(extra)
        extra.update(meta.env(tier, flavour))
        env = B.python_env(extra)
        wrapper = meta.wrapper(tier, flavour)
        cfg = dict(prop=prop, seed=seed, tier=tier, flavour=flavour,
                   limit=meta.limit(tier) / len(stages))
        ws = [Worker(dict(cfg, cases=cases[i::j]), dest, env, mk(tmp, flavour, i), i) for i in range(j)]
        live = list(ws)
        while live:
            time.sleep(0.05)
            live = [w for w in live if not w.poll()]
        for w in ws:
            o = w.out
            for k in ('fails', 'samples'):
                tot[k] += [x + [flavour] for x in o[k]]
            for k in ('done', 'cut', 'noend'):
                tot[k] += o[k]
            tot['keys'] |= o['keys']
            for k, v in o['events'].items():
                tot['events'][k] = tot['events'].get(k, 0) + v
            for k, v in o['knowns'].items():
                tot['knowns'].setdefault(k, v)
            for idx, x in sorted(o['digests'].items()):
                if idx not in digests:
                    digests[idx] = (flavour, x)
                    continue
                compared += 1
                if digests[idx][1] != x:
                    tot['fails'].append([idx, 'results depend on the previous content of memory: the builds %s and %s '
                                         'differ' % (digests[idx][0], flavour), {}, {}, flavour])
            startup = startup or o.get('startup', '')
            per[flavour] = per.get(flavour, 0) + o['done']
    if compared:
        tot['events']['compared-between-builds'] = compared
    # a known finding that the file does not list is an ordinary violation
    for k, v in sorted(tot['knowns'].items()):
        if known.get(k) == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, v))
        else:
            tot['fails'].append([-1, 'unlisted finding %s: %s' % (k, v), {}, {}, ''])
    for f in tot['fails'][:40]:
        if f[0] >= 0 or f[1]:
            pass
    code = 0
    if tot['fails']:
        code = 1
        f = tot['fails'][0]
        path = os.path.join(evdir, 'replay', '%s-seed%d-case%d.json' % (prop, seed, f[0]))
        json.dump(dict(property=prop, seed=seed, tier=tier, case=f[0], what=f[1], detail=f[2],
                       case_description=f[3], flavour=f[4] if len(f) > 4 else '',
                       others=[[x[0], x[1]] for x in tot['fails'][1:40]],
                       rerun='python3 check.py %s --replay %s' % (prop, path)),
                  open(path, 'w'), indent=1, default=str)
        for g in tot["fails"][:int(os.environ.get("SHOW", 8))]:
            print('case %s [%s]: %s' % (g[0], g[4] if len(g) > 4 else '', g[1]))
        if only is not None:
            print(json.dumps(f[2:4], indent=1, default=str).replace('\\n', '\n'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif only is None:
        missing = [(k, v, tot['events'].get(k, 0)) for k, v in meta.minimum(tier).items()
                   if tot['events'].get(k, 0) < v]
        if tot['noend'] or missing or not tot['keys'] or (tot['cut'] and tier == 'quick' and
                                                         tot['done'] < meta.total(tier) / 4):
            print('inconclusive: %s' % (startup or 'monitors reached too rarely: %s' % missing))
            code = 2
    if only is None:
        ev = dict(property=prop, tier=tier, seed=seed, level=meta.level,
                  coverage=dict(evaluations=tot['done'], distinct_nontrivial=len(tot['keys']),
                                rule=meta.rule, samples=[dict(case=s[0], **s[1]) for s in tot['samples'][:6]],
                                monitor_events=dict(sorted(tot['events'].items())),
                                executions_per_build=per, cut_short_workers=tot['cut'],
                                known_findings=sorted(tot['knowns'])),
                  assumptions=meta.assumptions, wall_s=round(time.time() - t0, 2),
                  violations=len(tot['fails']))
        with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    print('%s %s seed=%d: %d executions, %d distinct non-trivial, %d monitor events, %d violations, %.1fs'
          % (prop, tier, seed, tot['done'], len(tot['keys']), sum(tot['events'].values()),
             len(tot['fails']), time.time() - t0))
    return code


def mk(tmp, flavour, i):
    d = os.path.join(tmp, '%s.%d' % (flavour, i))
    os.makedirs(d)
    return d


if __name__ == '__main__':
    sys.exit(main())
