import json, os, signal, sys, time

def main():
    wfd, scratch, mode, cid = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4]
    os.set_inheritable(wfd, False)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    from sim import build, core, loader
    loader.install(build.extensions(os.environ['SIM_BUILD']))
    del os.environ['LD_PRELOAD']
    import warnings
    warnings.simplefilter('ignore')

    def send(o):
        data = (json.dumps(o) + '\n').encode()
        while data:
            data = data[os.write(wfd, data):]
    check = core.get_check(cid)
    try:
        check.preload()
    except core.Violation as v:
        send({'t': 'violation', 'index': -1, 'plan': {}, 'sig': v.sig, 'msg': v.msg})
        return
    except BaseException:
        import traceback
        send({'t': 'error', 'index': -1, 'msg': traceback.format_exc()[-3000:]})
        return
    import gc
    gc.collect()
    gc.freeze()
    if mode == 'batch':
        tier, seed, w, nw, nruns, deadline = sys.argv[5:11]
        core.worker_loop(check, tier, int(seed), int(w), int(nw), int(nruns), float(deadline), scratch, send)
    else:  # serve: one plan per line
        send({'t': 'ready'})
        for line in sys.stdin:
            send(core.run_plan(check, json.loads(line), scratch))


main()
