"""run.py Cxx [--tier quick|thorough] [--replay FILE]"""
import importlib, os, sys

if os.environ.get('MC_CHILD') != '1':
    # A clean, deterministic interpreter: no bytecode of /repo is read or
    # written, no user site, fixed hash seed.
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(MC_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') not in (os.path.join(here, 'mc'),)]
sys.path.insert(0, here)

from mc import core   # noqa: E402


def main(argv):
    prop, tier, replay = argv[0].upper(), os.environ.get('VERIF_TIER') or 'quick', None
    rest = argv[1:]
    while rest:
        if rest[0] == '--tier':
            tier = rest[1]
        elif rest[0] == '--replay':
            replay = rest[1]
        rest = rest[2:]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.setrecursionlimit(3000)
    try:
        module = importlib.import_module('mc.checks.' + prop.lower())
    except BaseException:
        import traceback
        text = traceback.format_exc()

        class module(object):
            ID, RULE, BOUNDS = prop, 'import failed', {'quick': '', 'thorough': ''}

            @staticmethod
            def setup(tier):
                raise RuntimeError(text)
    return core.main(module, tier, replay)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
