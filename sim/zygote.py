"""A warm interpreter with one PYTHONHASHSEED; forks actors on request.

argv: socket-path.  Each connection is served by its own forked child, so that
every worker has a private, identical parent for its actors.
"""
import gc
import json
import os
import socket
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def serve(conn):
    f = conn.makefile('rwb')
    while True:
        line = f.readline()
        if not line:
            os._exit(0)
        req = json.loads(line)
        if req['cmd'] == 'spawn':
            pid = os.fork()
            if pid == 0:
                fd = conn.fileno()
                f.detach() if False else None
                os.close(fd)
                from sim import actor
                actor.main(req)
                os._exit(0)
            f.write(b'%d\n' % pid)
        elif req['cmd'] == 'wait':
            _, st = os.waitpid(req['pid'], 0)
            f.write(b'%d\n' % st)
        f.flush()


def main():
    path = sys.argv[1]
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path + '.tmp')
    srv.listen(64)
    import warnings
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import numpy  # noqa: F401
    import shgpy  # noqa: F401
    import shgpy.fformfit, shgpy.fformgen, shgpy.formgen  # noqa: F401,E401
    import shgpy.tensor_definitions  # noqa: F401
    import shgpy.core.utilities  # noqa: F401
    from sim import actor, steps
    steps.warm()
    from sim import pure
    pure.warm()
    if 'uft' in sys.argv[2:]:
        from sim import ufts
        ufts.warm(os.path.dirname(path))
    actor.shim()
    gc.collect()
    gc.freeze()
    os.rename(path + '.tmp', path)
    ppid = os.getppid()
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        srv.settimeout(5)
        try:
            c, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != ppid:
                os._exit(0)
            continue
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            c.settimeout(None)
            srv.close()
            serve(c)
            os._exit(0)
        c.close()


if __name__ == '__main__':
    main()
