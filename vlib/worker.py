"""Runs the generated executions of one property in this process (spawned by
check.py with the freshly built package first on sys.path)."""
import faulthandler, importlib, json, os, shutil, sys, tempfile, time, traceback, warnings

warnings.simplefilter('ignore')


def main():
    cfg = json.loads(sys.argv[1])
    import numpy as np
    np.seterr(all='ignore')
    from vlib.case import Case, Violation
    import igakit
    faulthandler.enable()
    mod = importlib.import_module('vlib.props.%s' % cfg['prop'].lower())
    log = os.open(cfg['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def put(*a):
        os.write(log, (' '.join(a) + '\n').encode())
    events, nkeys = {}, 0
    seen = set()
    t0 = time.time()
    tmp = tempfile.mkdtemp(dir=cfg['tmp'])
    if hasattr(mod, 'start'):
        mod.start(cfg)
    samples = 0
    done = 0
    for idx in cfg['cases']:
        if time.time() - t0 > cfg['limit']:
            put('T', str(idx))
            break
        put('S', str(idx))
        sub = os.path.join(tmp, 'c%d' % idx)
        os.mkdir(sub)
        c = Case(cfg['prop'], cfg['seed'], idx, cfg['tier'], sub)
        c.flavour = cfg['flavour']
        err = None
        try:
            mod.case(c)
        except Violation:
            pass
        except Exception as e:
            c.fails.append(('unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                            {'traceback': traceback.format_exc()[-2500:]}))
        for k, v in c.events.items():
            events[k] = events.get(k, 0) + v
        for what, detail in c.fails[:3]:
            put('V', json.dumps([idx, what, detail, c.desc]))
        for k, v in c.knowns.items():
            put('K', json.dumps([k, v, idx]))
        if c.hash is not None:
            put('X', json.dumps([idx, c.hash.hexdigest()]))
        seen.update(c.keys)
        if samples < 3 and c.desc and not c.fails:
            put('D', json.dumps([idx, c.desc]))
            samples += 1
        shutil.rmtree(sub, ignore_errors=True)
        done += 1
    if hasattr(mod, 'finish'):
        for what in mod.finish(cfg) or ():
            put('V', json.dumps([-1, what, {}, {}]))
    shutil.rmtree(tmp, ignore_errors=True)
    put('E', json.dumps([done, events, sorted(seen)]))
    os.close(log)


if __name__ == '__main__':
    main()
