"""Decides one property by seeded simulation:  check.py <property> [--tier quick|thorough]
[--seed N] [--runs N]  or  check.py --replay FILE."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_process():
    """fixed hash seed, no byte code written into or read from /repo"""
    if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('DST_CHILD') != '1':
        env = dict(os.environ, PYTHONHASHSEED='0', DST_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pyc')
        os.execve(sys.executable, [sys.executable, '-B', '-m', 'dst.check'] + sys.argv[1:], env)


def main():
    os.chdir(ROOT)
    sys.path.insert(0, ROOT)
    setup_process()
    from dst import runner
    return runner.main(sys.argv[1:])


if __name__ == '__main__':
    sys.exit(main())
