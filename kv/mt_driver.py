"""Runs loads in several threads under chosen schedules.

A schedule gives the threads turns: a number of steps each, a step being a
line of the loader or a call inside Kajiki.  Thread 0 is the environment that
changes the files.  A thread that does not get on (it waits for a lock) loses
its turn.  What is recorded are the calls and returns, in order."""
from __future__ import print_function, unicode_literals
import os
import sys
import threading
import time

import kajiki
import driver
from loader_driver import World, classify, DOCTYPE

HOME = os.path.dirname(os.path.abspath(kajiki.__file__)) + os.sep
LOADER = HOME + 'loader.py'
STUCK = .025
END = 20
FOREVER = 10 ** 9


class Worker(object):
    def __init__(self, run, t, ops):
        self.run, self.t, self.ops = run, t, ops
        self.quota = 0
        self.steps = 0
        self.go = threading.Semaphore(0)
        self.idle = threading.Event()
        self.done = False
        self.inside = True
        self.th = threading.Thread(target=self.main)
        self.th.daemon = True

    def point(self):
        self.steps += 1
        while self.quota <= 0:
            self.idle.set()
            self.go.acquire()
        self.quota -= 1

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(HOME):
            return None
        self.inside = fn == LOADER
        if event == 'call' and not self.inside:
            self.point()
            return None
        if event == 'line':
            self.point()
        return self.trace

    def main(self):
        try:
            self.point()
            for n in self.ops:
                self.run.log({'a': 'call', 't': self.t, 'n': n})
                sys.settrace(self.trace)
                try:
                    c = self.run.w.loaders[0].import_(self.run.w.name(n))
                    sys.settrace(None)
                    o = {'r': 'ok', 'id': self.run.label(c),
                         'out': c({}).render().replace(DOCTYPE, '')}
                except Exception as x:
                    sys.settrace(None)
                    o = {'r': classify(x), 'id': 0, 'out': ''}
                finally:
                    sys.settrace(None)
                self.run.log(dict(o, a='ret', t=self.t))
                self.point()
        finally:
            self.done = True
            self.idle.set()


class Run(object):
    def __init__(self, case, turns):
        self.w = World(case)
        self.events = []
        self.seen = []
        self.lock = threading.Lock()
        for e in case['before']:
            if e['a'] == 'load':
                self.log({'a': 'call', 't': 1, 'n': e['n']})
                c = self.w.loaders[0].import_(self.w.name(e['n']))
                self.log({'a': 'ret', 't': 1, 'r': 'ok', 'id': self.label(c),
                          'out': c({}).render().replace(DOCTYPE, '')})
            else:
                self.change(e)
        self.env = list(case['env'])
        self.workers = [Worker(self, i + 1, ops) for i, ops in enumerate(case['ops'])]
        for x in self.workers:
            x.th.start()
            x.idle.wait()
        for i, (t, n) in enumerate(turns):
            self.turn(t, n)
            if i == 0:
                self.inside = self.workers[0].inside

    def log(self, e):
        with self.lock:
            self.events.append(e)

    def label(self, c):
        with self.lock:
            if not any(x is c for x in self.seen):
                self.seen.append(c)
            return [x is c for x in self.seen].index(True) + 1

    def change(self, e):
        self.log(dict(e, a='w' + e['a']))
        self.w.do(0, e)
        self.log({'a': 'wend'})

    def turn(self, t, n):
        if t == 0:
            for _ in range(min(n, len(self.env))):
                self.change(self.env.pop(0))
            return
        x = self.workers[t - 1]
        if x.done:
            return
        x.idle.clear()
        x.quota = n
        x.go.release()
        x.idle.wait(STUCK)

    def finish(self, last):
        """Everything to the end, then the loads of `last`."""
        self.turn(0, len(self.env))
        for x in self.workers:
            x.quota = FOREVER
            x.go.release()
        end = time.time() + END
        for x in self.workers:
            x.th.join(max(0, end - time.time()))
        stuck = [x.t for x in self.workers if x.th.is_alive()]
        if not stuck:
            for n in last:
                x = Worker(self, 1, [n])
                x.quota = FOREVER
                x.main()
        self.w.close()
        return stuck


def run_case(case):
    out = []
    if case.get('sweep'):
        # thread 1 is interrupted after k steps, for every k
        k = 0
        while k < 3000:
            r = Run(case, [(1, k)] + [tuple(x) for x in case['turns']])
            stuck = r.finish(case['last'])
            out.append({'turns': [[1, k]] + case['turns'], 'events': r.events, 'stuck': stuck})
            total = r.workers[0].steps
            if k > total or stuck:
                break
            # in the loader every step, less often in the compiler
            k += 1 if r.inside else case['sweep']
    else:
        r = Run(case, [tuple(x) for x in case['turns']])
        stuck = r.finish(case['last'])
        out.append({'turns': case['turns'], 'events': r.events, 'stuck': stuck})
    return {'k': 'ok', 'runs': out}


if __name__ == '__main__':
    driver.LIMIT = 300
    sys.setswitchinterval(0.0005)
    driver.main(run_case)
