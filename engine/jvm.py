"""Client of jython_server.py."""
import ast
import os
import select
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))


class Timeout(Exception):
    pass


class Jvm(object):
    def __init__(self, roots, log=None):
        env = dict(os.environ, JYTHONPATH='/opt/jylib', LC_ALL='C.UTF-8', TZ='UTC')
        self.log = open(log, 'ab') if log else subprocess.DEVNULL
        self.p = subprocess.Popen(['/usr/bin/jython', '-B', '-s', '-Dpython.cachedir.skip=true', os.path.join(HERE, 'jython_server.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env, cwd='/', start_new_session=True)
        self.buf = b''
        self.cmd('path', list(roots))

    def send(self, cmd, arg):
        self.p.stdin.write(('%s %r\n' % (cmd, arg)).encode('ascii', 'backslashreplace'))
        self.p.stdin.flush()

    def recv(self, timeout=None):
        end = None if timeout is None else time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            t = None if end is None else max(0, end - time.time())
            r, _, _ = select.select([fd], [], [], t)
            if not r:
                raise Timeout()
            d = os.read(fd, 1 << 20)
            if not d:
                raise EOFError('jython exited')
            if b'\n' in d:
                self.buf += d
                break
            self.buf += d
        line, _, self.buf = self.buf.partition(b'\n')
        return ast.literal_eval(line.decode('ascii'))

    def cmd(self, cmd, arg, timeout=None):
        self.send(cmd, arg)
        return self.recv(timeout)

    def kill(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
