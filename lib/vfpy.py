"""vfpy: the interface of vf.hpp for harnesses of Python code. Each part runs in a forked process."""
import json, os, resource, signal, sys, traceback

PARTS = []


def part(fn):
    PARTS.append(fn)
    return fn


class Leave(BaseException):
    pass


class Ctx:
    def __init__(self, name, tier, known, stop_at):
        self.name, self.thorough, self.known_keys, self.stop_at = name, tier == 'thorough', known, stop_at
        self.index, self.case = -1, ''
        self.r = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0, outcomes=0, samples=[], known=[], violations=[], known_hits=0)
        self.seen = set()

    def cur(self, text):
        if self.stop_at >= 0 and self.index >= self.stop_at:
            raise Leave()
        self.index += 1
        self.case = text
        if self.stop_at == self.index:
            print('case %d: %s' % (self.index, text))

    def state(self, s):
        if s not in self.seen:
            self.seen.add(s)
            self.r['states'] += 1

    def transition(self, n=1):
        self.r['transitions'] += n

    def trace(self, n=1):
        self.r['traces'] += n

    def eval(self, nontrivial=True):
        self.r['evaluations'] += 1
        self.r['nontrivial'] += bool(nontrivial)

    def sample(self, s):
        self.r['samples'].append(s)

    def check(self, ok, key, detail):
        if not ok:
            self.fail(key, detail)
        return ok

    def fail(self, key, detail):
        key = self.name + ':' + key
        if key in self.known_keys:
            self.r['known_hits'] += 1
            if key not in self.r['known']:
                self.r['known'].append(key)
            return
        if self.stop_at >= 0:
            print('VIOLATED %s: %s' % (key, detail))
        if all(v['key'] != key for v in self.r['violations']):
            self.r['violations'].append(dict(key=key, case=self.case, detail=detail[:3000], index=self.index))
        if len(self.r['violations']) >= 8:
            raise Leave()


def run(fn, tier, known, stop_at, limit):
    rd, wr = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if not pid:
        os.close(rd)
        c = Ctx(fn.__name__, tier, known, stop_at)

        def late(*_):
            c.fail('hang', 'the operation does not terminate')
            raise Leave()
        signal.signal(signal.SIGPROF, late)
        signal.setitimer(signal.ITIMER_PROF, limit)
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        try:
            fn(c)
        except Leave:
            pass
        except BaseException:
            try:
                c.fail('unexpected-exception', traceback.format_exc()[-2500:])
            except Leave:
                pass
        sys.stdout = sys.__stdout__
        c.r.update(name=fn.__name__, shard=0, shards=1, cases=c.index + 1)
        with os.fdopen(wr, 'w') as f:
            json.dump(c.r, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        t = f.read()
    os.waitpid(pid, 0)
    if t:
        return json.loads(t)
    return dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0, outcomes=0, samples=[], known=[], known_hits=0, name=fn.__name__, shard=0, shards=1, cases=0,
                violations=[dict(key=fn.__name__ + ':crash', case='', detail='the process died', index=-1)])


def main():
    a = sys.argv[1:]
    o = dict(zip(a[::2], a[1::2]))
    known = set(open(o['--known']).read().split('\n')) - {''} if '--known' in o else set()
    tier, stop = o.get('--tier', 'quick'), int(o.get('--case', -1))
    rs = [run(p, tier, known, stop, 2400 if tier == 'thorough' else 300) for p in PARTS if p.__name__.startswith(o.get('--prefix', '')) and o.get('--part', p.__name__) == p.__name__]
    for r in rs:
        sys.stderr.write('%s: cases %d states %d transitions %d traces %d evals %d nontrivial %d known %d\n' % (r['name'], r['cases'], r['states'], r['transitions'], r['traces'], r['evaluations'], r['nontrivial'], r['known_hits']))
        for v in r['violations']:
            sys.stderr.write('VIOLATED %s (case %d)\n  case: %s\n  %s\n' % (v['key'], v['index'], v['case'], v['detail']))
    if '--out' in o:
        json.dump(dict(parts=rs), open(o['--out'], 'w'))
    return 1 if any(r['violations'] for r in rs) else 0
