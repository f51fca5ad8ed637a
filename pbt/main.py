import sys
from pbt import runner

if __name__ == '__main__':
    args = sys.argv[1:]
    if '--replay' in args:
        i = args.index('--replay')
        sys.exit(runner.replay(args[0], args[i + 1]))
    if '--selftest' in args:
        runner.load('c03')       # everything is importable offline
        print('ready')
        sys.exit(0)
    try:
        code = runner.main(args[0], only=args[1] if len(args) > 1 else None)
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
