"""
Two callers of the code under test, of which one is interrupted between two statements.  The statements are marked by
calls of step(): the instrumented copy and the copy used for concrete runs (typedload_cs: the plain source plus these
calls) have them at the same places.
"""
import ast
import sys
import threading

HOOK = None


def step():
    if HOOK is not None:
        HOOK()


class Steps(ast.NodeTransformer):
    """step() before each statement of every function"""
    def __init__(self, call):
        self.call = call
        self.depth = 0

    def body(self, l):
        r = []
        for i, s in enumerate(l):
            if not (i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                r.append(ast.copy_location(ast.Expr(ast.Call(func=self.call(), args=[], keywords=[])), s))
            r.append(self.visit(s))
        return r

    def generic_visit(self, node):
        inside = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        self.depth += inside
        for name, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and self.depth and not isinstance(node, ast.ClassDef):
                setattr(node, name, self.body(v))
            elif isinstance(v, list):
                setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, name, self.visit(v))
        self.depth -= inside
        return node


class Stop(BaseException):
    pass


class Touch:
    now = True


def watched(cls):
    """cls, noting every use of its mutable state"""
    class Watched(cls):
        def __getattribute__(self, name):
            v = super().__getattribute__(name)
            if not callable(v) and not isinstance(v, (bool, str, int, type(None), tuple)):
                Touch.now = True
            return v

        def __setattr__(self, name, value):
            Touch.now = True
            super().__setattr__(name, value)
    return Watched


class Pair:
    """switch(k, n, where): is the k-th interruption before the n-th statement of the caller that runs?"""
    def __init__(self, fa, fb, switch, limit, touched=False):
        self.f = (fa, fb)
        self.switch = switch
        self.limit = limit
        self.touched = touched      # only consider the statements after which the state of a watched object was used
        self.turn = (threading.Semaphore(0), threading.Semaphore(0))
        self.done = [False, False]
        self.result = [None, None]
        self.steps = 0          # since the caller continued
        self.switches = 0
        self.me = 0
        self.thread = None
        self.error = None
        self.kill = False

    def hook(self):
        if self.kill:
            raise Stop()
        if self.switches >= self.limit or self.done[1 - self.me]:
            return
        if self.touched:
            if not Touch.now:
                return
            Touch.now = False
        f = sys._getframe(2)
        n = self.steps
        self.steps += 1
        if self.switch(self.switches, n, '%s:%d' % (f.f_code.co_name, f.f_lineno)):
            self.switches += 1
            self.handover()

    def handover(self):
        me = self.me
        self.steps = 0
        self.me = 1 - me
        if self.me == 1 and self.thread is None:
            self.thread = threading.Thread(target=self.work)
            self.thread.start()
        else:
            self.turn[1 - me].release()
        self.turn[me].acquire()
        if me == 0 and self.error is not None:
            raise self.error
        if me == 1 and self.kill:
            raise Stop()

    def work(self):
        try:
            self.result[1] = self.f[1]()
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        self.done[1] = True
        self.me = 0
        self.steps = 0
        self.turn[0].release()

    def run(self):
        global HOOK
        old = threading.stack_size(64 << 20)
        HOOK = self.hook
        try:
            self.result[0] = self.f[0]()
            self.done[0] = True
            if not self.done[1]:
                self.handover()
            if self.error is not None:
                raise self.error
            return self.result
        finally:
            if self.thread is not None:
                if not self.done[1]:
                    self.kill = True
                    self.turn[1].release()
                self.thread.join()
            HOOK = None
            threading.stack_size(old)
