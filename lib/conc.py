"""Several workers, each with its own handle and database context, on one shared database,
under the controlled scheduler: every RPC is a scheduling point (and may be made to fail)."""
import random
import threading

from . import core, sched
from .world import Crash


class Conc:
    def __init__(self, w, policy, max_steps=6000):
        self.w = w
        self.s = sched.Sched(policy, max_steps)
        self.calls = []
        self.local = threading.local()
        self.points = None         # only these RPCs are scheduling points (None: all)
        self.faults = {}           # (worker, n-th RPC of its current call) -> kind
        orig = w.storage.sequences.allocate

        def allocate(nsid):
            self.local.allocating = True
            try:
                seq = orig(nsid)
            finally:
                self.local.allocating = False
            if getattr(self.local, 'call', None) is not None:
                self.local.call['alloc'].append(seq)
            return seq
        w.storage.sequences.allocate = allocate
        w.fake.hook = self.hook

    def hook(self, rpc, request):
        t = self.s.me()
        if t is None:
            return
        if self.points is None or (rpc in self.points and getattr(self.local, 'call', None)
                                   and not getattr(self.local, 'allocating', False)):
            self.s.point(rpc)
        call = getattr(self.local, 'call', None)
        if call is not None and rpc != 'rollback':
            self.local.n += 1
            kind = self.faults.get((t.name, len([c for c in self.calls if c['w'] == t.name]), self.local.n))
            if kind:
                call['hit'] = True
                from google.api_core import exceptions as ce
                if kind == 'crash':
                    raise Crash()
                raise {'denied': ce.PermissionDenied, 'aborted': ce.Aborted,
                       'unavailable': ce.ServiceUnavailable}[kind]('injected')

    def worker(self, name, did, jobs):
        """jobs: [['commit', ws, cb], ['status', what, cb], ['event', type, cb]]"""
        w = self.w

        def main():
            with w.ndb_client.context(cache_policy=lambda key: False):
                repo = w.storage.load_repo(did)
                for job in jobs:
                    self.call(name, did, repo, job)
        self.s.spawn(name, main)

    def call(self, name, did, repo, job):
        w = self.w
        kind, arg, cb = job
        call = dict(w=name, op=kind, ws=[], what='', cb=cb, begin=self.s.steps, end=0, alloc=[],
                    notes=[], r='', exc='', hit=False, ret=dict(w.NONE_ROW))
        self.local.n = 0
        self.calls.append(call)
        self.local.call = call

        def callback(data=None, lost_seq=None):
            if lost_seq is not None:
                call['notes'].append(['lost', lost_seq, 0])
            elif isinstance(data, dict):
                call['notes'].append(['event', data.get('seq', -1), 0])
            else:
                call['notes'].append(['commit', data.commit.seq or -1,
                                      w.blocks.id(data.commit.cid, data.commit.encoded)])
            if cb == 'raise':
                raise RuntimeError('observer failed')
        repo.callback = None if cb == 'none' else callback
        try:
            if kind == 'commit':
                call['ws'] = arg
                cd = w.storage.commit(repo, [w.write_of(x) for x in arg])
                call['ret'] = w.data_row(cd)
            elif kind == 'status':
                call['what'] = arg
                getattr(w.storage, f'{arg}_repo')(repo)
            else:
                call['what'] = arg
                w.storage.write_event(repo, arg)
            call['r'] = 'ok'
        except Crash:
            call['r'] = 'crash'
        except Exception as e:
            call['r'], call['exc'] = 'raised', type(e).__name__
        finally:
            call['end'] = self.s.steps
            self.local.call = None
            if call['r'] == '':
                call['r'] = 'hang'

    def run(self):
        out = self.s.run()
        if out != 'done':
            for c in self.calls:
                if not c['r']:
                    c['r'] = 'hang'
            self.s.shutdown()
        self.w.fake.hook = self.w.on_rpc
        return out

    def event(self, did, base):
        """The 'conc' event: everything the workers did and everything readers see now."""
        w = self.w
        with w.context():
            repo = w.storage.load_repo(did)
            row = w.repo_row(repo)
            row.update(c=w.contents(repo), one=w.singles(repo))
            chain, cid = [], repo.head.cid
            while cid is not None and len(chain) < 100:
                b = w.storage.read(cid)
                if b is None:
                    chain.append(0)
                    break
                chain.append(w.blocks.id(cid, b.encoded))
                if chain[-1] == base['head']:
                    break
                cid = b.decoded['prev']
            chain.reverse()
            log = [r for r in w.log_rows() if r['seq'] > base['rev'] or r['commit'] in chain]
            blocks = w.block_rows()
        last = w.storage.sequences.last(w.storage_mod.SUBSCRIBE_REPOS_NSID)
        return dict(op='conc', did=did, base=base, calls=self.calls, chain=chain, repo=row,
                    log=log, blocks=blocks, steps=self.s.steps, outcome=self.s.outcome, last=last)
