"""Runs interleaved renderings on the real Kajiki (see spec/Sessions.tla)."""
from __future__ import print_function, unicode_literals
import copy
import random
import sys
import threading
import time

import driver
from driver import MockLoader, compile_one, context, main
from mt_driver import END, FOREVER, HOME, STUCK, Worker


def snapshot(ctx):
    return dict((k, (id(v), copy.copy(v) if isinstance(v, (list, dict)) else None)) for k, v in ctx.items())


def compile_set(ts):
    loader = dict((t['name'], compile_one(t, s)) for t, s in zip(ts['tpls'], ts['srcs']))
    MockLoader(loader)
    return loader[ts['tpls'][0]['name']]


class Thread(Worker):
    """Renders one session; every line of Kajiki and of the template is a step."""

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME) and frame.f_code.co_filename not in self.run.names:
            return None
        self.point()
        return self.trace

    def main(self):
        try:
            self.point()
            self.run(self)
            self.point()
        finally:
            self.done = True
            self.idle.set()


class Threads(object):
    """Renderings in several threads, which take turns of some steps."""

    def __init__(self, case):
        self.case = case
        self.names = set(t['name'] for ts in case['sets'] for t in ts['tpls'])
        self.own = case['threads']['own']       # each thread compiles its templates itself
        self.sets = [None if self.own else compile_set(ts) for ts in case['sets']]
        self.ctxs = [context(c, []) for c in case['ctxs']]
        self.events, self.lock = [], threading.Lock()

    def __call__(self, w):
        o = self.case['sess'][w.t - 1]
        ctx = self.ctxs[o['ctx']]
        e = {'s': w.t, 'r': 'end', 't': ''}
        sys.settrace(w.trace)
        try:
            tpl = compile_set(self.case['sets'][o['set']]) if self.own else self.sets[o['set']]
            for t in tpl(ctx):
                e['t'] += t
        except Exception as x:
            e.update(r='err', type=type(x).__name__, msg=str(x)[:200])
        finally:
            sys.settrace(None)
        with self.lock:
            self.events.append(e)

    def go(self):
        before = [snapshot(c) for c in self.ctxs]
        rng = random.Random(self.case['threads']['seed'])
        ws = [Thread(self, i + 1, ()) for i in range(len(self.case['sess']))]
        for w in ws:
            w.th.start()
            w.idle.wait()
        end = time.time() + 2 * END
        for _ in range(400):
            live = [w for w in ws if not w.done]
            if not live or time.time() > end:
                break
            w = rng.choice(live)
            w.idle.clear()
            w.quota = rng.choice([1, 2, 3, 5, 10, 30]) * self.case['threads']['len']
            w.go.release()
            w.idle.wait(STUCK * 4)
        for w in ws:
            w.quota = FOREVER
            w.go.release()
        for w in ws:
            w.th.join(max(0, end + END - time.time()))
        if any(w.th.is_alive() for w in ws):
            return {'k': 'err', 'type': 'timeout', 'msg': 'a thread does not end'}
        return {'k': 'ok', 'events': self.events, 'pure': before == [snapshot(c) for c in self.ctxs]}


def run_case(case):
    """Events observed while following the schedule."""
    try:
        if case.get('threads'):
            return Threads(case).go()
        sets = [compile_set(ts) for ts in case['sets']]
        ctxs = [context(c, []) for c in case['ctxs']]
        before = [snapshot(c) for c in ctxs]
        insts, its, events = {}, {}, []
        for x in case['sched']:
            a, s = x['a'], x['s']
            if a in ('pull', 'drain'):
                if its.get(s) in ('over',):
                    continue
                if s not in its:
                    if s not in insts:
                        o = case['sess'][s - 1]
                        insts[s] = sets[o['set']](ctxs[o['ctx']])
                    its[s] = iter(insts[s])
                t = ''
                try:
                    while True:
                        t += next(its[s])
                        if a == 'pull':
                            break
                    events.append({'s': s, 'r': 'chunk', 't': t})
                except StopIteration:
                    its[s] = 'over'
                    events.append({'s': s, 'r': 'end', 't': t})
                except Exception as e:
                    its[s] = 'over'
                    events.append({'s': s, 'r': 'err', 't': t, 'type': type(e).__name__, 'msg': str(e)[:200]})
            elif a == 'drop':
                if s in its and its[s] != 'over':
                    its[s].close()
                    its[s] = 'over'
                    events.append({'s': s, 'r': 'drop', 't': ''})
            elif a == 'again':
                if its.get(s) == 'over':
                    del its[s]
                    events.append({'s': s, 'r': 'again', 't': ''})
            elif a == 'new':
                # a new instance of the same template and context
                if its.get(s) == 'over':
                    del its[s], insts[s]
                    events.append({'s': s, 'r': 'again', 't': ''})
        return {'k': 'ok', 'events': events, 'pure': before == [snapshot(c) for c in ctxs]}
    except Exception as e:
        return {'k': 'err', 'type': type(e).__name__, 'msg': str(e)[:300]}


if __name__ == '__main__':
    driver.LIMIT = 30
    sys.setswitchinterval(0.0005)
    main(run_case)
