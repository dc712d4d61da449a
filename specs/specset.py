"""Which contracts exist, in which translation unit, and what is trusted."""
import fifo_big
import fifo_ops
import fifo_range
import fifo_resize
import rt_file
import rt_gc
import rt_map
import rt_own
import rt_sig
import rt_exe
import rt_ops
import rt_ports
import rt_split
import rt_kern


class Task:
    def __init__(self, tu, name, fn, props=None, cost=1, also=(), returns=True):
        self.tu, self.name, self.fn, self.props, self.cost, self.also, self.returns = tu, name, fn, props, cost, set(also), returns

    def run(self, mod):
        return self.fn(mod)

    def serves(self, prop):
        return self.props is None or prop in self.props

    def vacuity(self, r):
        return []


FIFO_PROPS = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C10', 'C11'}


def mk(kind, op):
    f = getattr(fifo_ops, 'op_' + op, None) or fifo_range.OPS.get(op) or fifo_big.OPS[op]
    return Task('fifo_' + kind, op, lambda mod: f(mod, kind), FIFO_PROPS)


def mk_buf(kind, op, cost):
    """construction, resizing, destruction: the base of the class invariant"""
    f = fifo_resize.OPS[op]
    return Task('fifo_' + kind, op, lambda mod: f(mod, kind), FIFO_PROPS | {'C09'}, cost=cost, also={'C09'} if 'resize' in op else ())


def mk_rg(kind, op, cost=2):
    """the same operation while the other end is running (rely/guarantee)"""
    f = getattr(fifo_ops, 'op_' + op, None) or fifo_big.OPS.get(op) or fifo_big.RG_OPS[op]

    def run(mod):
        fifo_ops.ENV = True
        try:
            return f(mod, kind)
        finally:
            fifo_ops.ENV = False
    return Task('fifo_' + kind, 'rg_' + op, run, FIFO_PROPS | {'C08'}, cost=cost,
                # what an element handed on twice may look like is the business of C06 (see the known finding)
                also=() if op == 'push_again' else {'C08'})


RG_COST = dict(recycle=20, pop_s=8, recycle_default=5, size=4)


def tasks():
    out = []
    out += [mk('u64', o) for o in fifo_ops.SEQ_U64 + list(fifo_range.OPS)]
    out += [mk_rg('u64', o, RG_COST.get(o, 2)) for o in fifo_ops.SEQ_U64]
    out += [mk('item', o) for o in fifo_ops.SEQ_ITEM + list(fifo_range.OPS)]
    out += [mk_rg('item', o, RG_COST.get(o, 2)) for o in fifo_ops.SEQ_ITEM]
    out += [mk('big', o) for o in fifo_ops.SEQ_BIG + list(fifo_range.OPS) + list(fifo_big.OPS)]
    out += [mk_rg('big', o, RG_COST.get(o, 2)) for o in fifo_ops.SEQ_BIG + ['pop_alone'] + list(fifo_big.RG_OPS)]
    for kind in ('u64', 'item', 'big'):
        # a stream of externally stored objects over user memory is not specified
        out += [mk_buf(kind, o, 8 if 'resize' in o else 1) for o in fifo_resize.OPS if not (kind == 'big' and o == 'construct_ext')]
    for name, f, props, cost in rt_gc.TASKS + rt_ops.TASKS:
        out.append(Task('rt_core', name, f, props, cost=cost))
    for name, f, props, cost in rt_ports.TASKS:
        out.append(Task('rt_ports', name, f, props, cost=cost))
    for name, f, props, cost in rt_map.TASKS + rt_own.TASKS + rt_sig.TASKS + rt_exe.TASKS:
        out.append(Task('rt_map', name, f, props, cost=cost))
    for name, f, props, cost in rt_split.TASKS:
        out.append(Task('rt_split', name, f, props, cost=cost))
    for name, f, props, cost in rt_split.CLS_TASKS:
        out.append(Task('rt_split_cls', name, f, props, cost=cost))
    for name, f, props, cost in rt_kern.TASKS:
        out.append(Task('rt_kern', name, f, props, cost=cost))
    for tu in ('rt_file', 'rt_file_ext'):
        for name, f, props, cost in rt_file.TASKS:
            out.append(Task(tu, name, f, props, cost=cost))
    return out


# functions the property depends on that are not under contract: a bounded check (model-based executions of the real
# code) stands in for them on every run, and is never counted as proved
BOUNDED = {
    'C06': 'kernels, scheduler and streams put together: whole programs with the real Schedule::fifo_gc (chains of kernels '
           'peeking, recycling, forwarding; each part is under contract)',
    'C12': 'simple_schedule::start with real threads',
    'C14': 'map::operator+=, inline_cont, inline_split, inline_join, inline_dup_join (random expressions of up to 7 kernels, splits of width up to 3, nested up to 3 deep, '
           'every parenthesisation)',
}


def prepare_jobs(mods, tasks):
    """lemmas other contracts rely on: verified first; list of (key, fn)"""
    out = []
    for tu in sorted({t.tu for t in tasks}):
        if tu.startswith('fifo_') and not isinstance(mods[tu], str):
            kind = tu.split('_')[1]
            if kind in fifo_ops.ET:
                for env in (False, True):
                    for role in ('consumer', 'producer'):
                        for reg in (False, True):
                            out.append(((tu, kind, env), (mods[tu], kind, env, role, reg)))
    return out


def prepare_run(job):
    return fifo_ops.size_lemma(*job)


def prepare_done(mods, results):
    for (tu, kind, env), ok in results:
        k = (id(mods[tu]), kind, env)
        fifo_ops._size_ok[k] = fifo_ops._size_ok.get(k, True) and ok


RT_PROPS = {'C12', 'C13', 'C14', 'C15', 'C16', 'C19', 'C20', 'C21', 'C22', 'C23'}


def replay_driver(prop):
    return 'life' if prop == 'C06' else 'file' if prop == 'C16' else 'rt' if prop in RT_PROPS else 'fifo'


TRUSTED = [
    'clang 18 front end: the LLVM IR it emits at -O0 for the instantiated templates is the code that is verified',
    'the IR semantics and verification-condition generator in /verif/engine (symex.py, irparse.py)',
    'z3 / cvc5',
]


def assumptions(prop):
    if prop == 'C16':
        return ['the file does not change while it is read; stat, fopen, fseek, ftell, fread and std::search behave as specified (contracts)',
                'chunk_offset is at least 0 and at most the chunk size less one; the text searched for is not empty',
                'templates instantiated for chunks of 8 bytes, stored inline and (with a 16 byte cache line) externally',
                'std::string equality is value equality; std::map behaves as specified by the standard (contracts)',
                'memory allocation succeeds; one reader thread']
    if prop == 'C23':
        return ['streams, ports and port iteration behave as C01-C04 and C13 have it (contracts); each kernel is run by one thread at a time',
                'the inserter, the ostream and the function a kernel is made of are opaque: calls are counted and what they are given is compared',
                'elements are std::uint64_t; read_each over a pointer range; print with and without a delimiter; kernels made of functions with one type for all '
                'ports and with three; memory allocation succeeds',
                'for_each is asked for at least one port (0 is documented as "runtime will specify" and is not implemented)']
    if prop in RT_PROPS:
        return ['user kernels: run() returns proceed or stop, does not throw, and only consumes from its own input streams',
                'every port of a scheduled kernel is linked (start-up checks it); the scheduling rule is any_port or all_port',
                'port names: std::string equality is value equality; std::map behaves as specified by the standard (contracts)',
                'memory allocation succeeds; sequentially consistent memory']
    return ['machine integers are exact (wrap-around modelled), except the lap counter, assumed below 2^62',
            'capacity below 2^32',
            'template instantiated for std::uint64_t (scalar), an arbitrary inline class and an arbitrary external class with opaque special members']
