"""Runs scenarios of one property, which it reads from stdin"""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    out = os.fdopen(os.dup(1), 'w')
    jobs = os.fdopen(os.dup(0))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 2)

    import faulthandler
    if os.environ.get('DST_CRASHLOG'):
        faulthandler.enable(open(os.environ['DST_CRASHLOG'] + str(os.getpid()),
                                 'w'))

    def say(**msg):
        out.write(json.dumps(msg) + '\n')
        out.flush()

    prop = sys.argv[1]
    try:
        from . import boot
        boot.load()
        from . import common
        common.warm_up()
        module = importlib.import_module('dst.props.' + prop.lower())
    except BaseException:
        say(error=traceback.format_exc())
        return
    say(ready=True)
    for line in jobs:
        job = json.loads(line)
        t0 = boot.real.perf_counter()
        try:
            scenario = job.get('scenario')
            if scenario is None:
                scenario = module.generate(
                    common.random.Random('%s/%s' % (prop, job['seed'])))
            # Every run has a process of its own, so that nothing which the
            # code under test remembers gets from one run into another
            if hasattr(module, 'materialise') \
                    and 'materialised' not in scenario:
                scenario = common.forked(
                    lambda: common.materialise(module, scenario))
            scenario = json.loads(json.dumps(scenario))
            res = common.forked(lambda: common.execute(module, scenario))
            res['scenario'] = scenario
            res['wall'] = boot.real.perf_counter() - t0
            say(id=job['id'], result=res)
        except BaseException:
            say(id=job['id'], error=traceback.format_exc())


if __name__ == '__main__':
    main()
