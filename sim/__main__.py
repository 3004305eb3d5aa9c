import sys


def main(argv):
    from . import runner
    if argv[:1] == ['check']:
        kw = {}
        for a in argv[2:]:
            k, v = a.split('=')
            kw[k] = float(v) if k == 'scale' else (int(v) if k == 'seed' else v)
        return runner.check(argv[1], **kw)
    if argv[:1] == ['replay']:
        return runner.replay(argv[1])
    if argv[:1] == ['determinism']:
        return runner.determinism(argv[1].split(','), [int(s) for s in argv[2].split(',')], int(argv[3]))
    print('usage: python -m sim check Pxx [tier=..] [seed=..] [scale=..] | replay FILE | determinism Pxx,.. SEED,.. N')
    return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
