import importlib, os, resource, signal, sys, time, traceback
sys.setrecursionlimit(20000)
from . import facts, report

MODULES = {}


def module_for(pid):
    return {'X': 'rules_x', 'H': 'rules_h', 'M': 'rules_m', 'E': 'rules_m', 'S': 'rules_s', 'D': 'rules_d'}[pid[0]]


def main(argv):
    pid = argv[1]
    mod = importlib.import_module('jsa.' + module_for(pid))
    fn = getattr(mod, 'check_' + pid)
    rep = report.Report(pid, getattr(fn, 'technique', 'static analysis of MIR'))
    try:
        prog = facts.Program()
    except facts.FactError as e:
        print('cannot extract facts: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, 'facts'))
        return 1
    # what is not decided within the budget is left undecided
    from . import budget
    # ... and neither is what does not fit into the memory
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
    budget.start(780 if 'thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 420)
    try:
        fn(prog, rep)
    except budget.Unsupported as e:
        rep.unknown('the rest of the check', str(e))
    except report.Enough:
        rep.notes.append('the check ended early: enough violations were found')
    except MemoryError:
        rep.unknown('the rest of the check', 'memory budget')
    finally:
        budget.stop()
        # the verdict itself must always fit
        resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv))
