"""Re-runs a recorded failing input against the real code:  python3-vt -m amivc.replay evidence/replay_C02_0.json"""
import json, shutil, sys, tempfile


def main():
    d = json.load(open(sys.argv[1]))
    print('property %s: %s' % (d['property'], d['what']))
    f = d.get('failing_input')
    for u in d.get('failed_obligations', []):
        print('failed obligation %s (%s): code %s' % (u['obligation'], u['status'], u['code'][:300]))
        print('                  specification %s' % u['specification'][:300])
    if not f or 'request' not in f:
        print('no failing input recorded')
        return 1
    from .frontend import Program
    prog = Program(d['source'], tuple(d['defs']))
    from . import contracts as K, driver as D, ctors as CT
    byfn, bylabel = K.attach(prog)
    ctors = []
    if 'constructor' in f:
        for name, sorts in CT.TABLE:
            try:
                ctors.append(CT.driver_entry(prog, name, sorts))
            except Exception:
                pass
    work = tempfile.mkdtemp(prefix='amivc_')
    try:
        b = D.Build(prog, d['source'], list(bylabel.items()), ctors, tuple(f.get('flags', ('-O1',))), work, f.get('tag', 'd'))
        e = b.compile()
        if e:
            print('the driver does not build: ' + e[-1000:])
            return 2
        drv = D.Driver(b)
        print('function %s, arguments %s, settings %s' % (f['function'], json.dumps(f['arguments'])[:2000], f['state']))
        print('expected %s = %s' % (f['output'], f['expected'][:1000]))
        try:
            drv.start()
            hist = f.get('history') or [f['request']]
            calls = f.get('calls') or [f['function']] * len(hist)
            for name, req in zip(calls, hist):
                toks = req.split()
                toks[0] = str(b.index[name])
                print('%s -> (result, reference arguments, settings): ' % name + drv.roundtrip(' '.join(toks))[:3000])
        except D.Crash as e:
            print('the function did not return: %s' % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1


if __name__ == '__main__':
    sys.exit(main())
