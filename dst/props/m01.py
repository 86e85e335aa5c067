"""M01: a pruned proof carries over what was looked at, and its root"""

from .. import families
from .common import world, show, ask, interrupted, MARSHAL_REAL, STUBS

RUNS = {'quick': 7000, 'thorough': 120000}
RULE = ('One run: a prover process builds a structure, answers some questions on a pruned view of it, stores the view and '
        'ends; verifier processes load it, repeat the questions, ask others, prune further and pass it on. Non-trivial: '
        'the stored view misses something.')
STATE = 'distinct (kind of structure, multiset of questions, generation, whether anything is missing) tuples'
SEARCH = 'proofs, questions, generations of pruning, storing and restarting'
ORACLE = 'plain Python model of the contents and independent hash computation'
REAL = MARSHAL_REAL + ['proofmarshal.merbinnertree', 'proofmarshal.mmr', 'proofchains.core.bitcoin',
                       'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap', 'bitcoin.core']
STUB = STUBS
ASSUMPTIONS = ['SHA256 has no collisions among the values tried', 'asserts are enabled (no python -O)']


def run(sim):
    fam = families.pick(sim)
    u = world(sim, 'prover')
    model = fam.gen(sim)
    root = fam.root(model)
    obj = fam.build(u, model)
    sim.log('%s', fam.describe())
    sim.check(obj.hash == root, 'root', 'root of a new %s', fam.describe())
    if sim.chance(50):
        sim.check(not obj.is_pruned, 'is_pruned', 'a complete %s says it is pruned', fam.describe())
    generation = 0
    known = None
    for generation in range(sim.choice((1, 2, 3))):
        view = obj.prune()
        base = base_ops = None
        if sim.chance(20):
            # a view of a view: it doesn't hold what the other one was asked
            base, base_ops = view, [fam.op(sim, model) for _ in range(sim.choice((0, 1, 2, 4)))] if known is None else [op for op in known if sim.chance(50)]
            later = sim.below(len(base_ops) + 1)
            for i in range(len(base_ops) + 1):
                if i == later:
                    if sim.chance(30):
                        base.hash
                    view = base.prune()
                if i == len(base_ops):
                    break
                op = base_ops[i]
                want, got = fam.expect(model, op), fam.do(u, base, op)
                sim.check(got == want, 'prover', '%s: %s on a pruned view gives %s, expected %s', fam.describe(), show(op), show(got), show(want))
            sim.probe('view of a view')
        ops, extra = [], []
        n = sim.choice((1, 2, 0, 3, 5, 8))
        if known is None:
            if sim.chance(5):
                # nothing is left out
                view, base = obj, None
                ops = [fam.op(sim, model) for _ in range(n)]
                n = 0
            for _ in range(n):
                op = fam.op(sim, model)
                ops.append(op)
        elif known:
            ops = [op for op in known if sim.chance(60)]
        if known is not None and sim.chance(40):
            # what was left out of the view that was loaded is missing in a view of it, too
            for _ in range(sim.choice((1, 2, 4))):
                op = fam.op(sim, model)
                want, got = fam.expect(model, op), fam.do(u, view, op)
                sim.check(got == want or got == ('exc', 'PrunedError'), 'wrong-answer', '%s: %s on a view of a loaded view gives %s, expected %s', fam.describe(), show(op), show(got), show(want))
                extra.append(op)
                if got != want:
                    sim.probe('missing in a view')
            if sim.chance(30):
                getattr(view, 'nothing', None)
        early = sim.below(len(ops)) if ops and sim.chance(30) else None
        half = list(extra)      # begun only
        for i, op in enumerate(ops):
            if sim.chance(8):
                half.append(fam.op(sim, model) if sim.chance(30) and known is None else op)
                if interrupted(sim, lambda: fam.do(u, view, half[-1])):
                    sim.log(' prover interrupted at %s', show(half[-1]))
                if sim.chance(30):
                    interrupted(sim, view.serialize)
            if i == early:
                view.serialize()        # looking at it in between does no harm
                view.hash
            want, got = fam.expect(model, op), fam.do(u, view, op)
            sim.log(' prover %s -> %s', show(op), show(got))
            sim.check(got == want, 'prover', '%s: %s on a pruned view gives %s, expected %s', fam.describe(), show(op),
                      show(got), show(want))
            if sim.chance(20):
                got = fam.do(u, view, op)
                sim.check(got == want, 'prover', '%s: %s again gives %s, expected %s', fam.describe(), show(op), show(got),
                          show(want))
        if base is not None and known is None and sim.chance(40):
            # others ask the view that this one is a view of, which doesn't concern it
            for asked in (base, base.prune())[:sim.choice((1, 2))]:
                for _ in range(sim.choice((1, 3, 6))):
                    op = fam.op(sim, model)
                    want, got = fam.expect(model, op), fam.do(u, asked, op)
                    sim.check(got == want, 'prover', '%s: %s on a pruned view gives %s, expected %s', fam.describe(), show(op), show(got), show(want))
                    base_ops = base_ops + [op]
            sim.probe('views of the same view')
        sim.check(view.hash == root, 'root', 'pruned view of %s has another root', fam.describe())
        derived = None
        if fam.name == 'map' and view is not obj and known is None and sim.chance(30):
            k, v = fam.any_key(sim, model, 60), fam.vk.gen(sim, 99)
            derived = (obj.prune().put(fam.mk(u, k), fam.vk.make(u, v)).serialize(), {**model, k: v}, ('get', k))
        elif fam.name == 'list' and view is not obj and known is None and sim.chance(30):
            v = fam.vk.gen(sim, 99)
            derived = (obj.prune().append(fam.vk.make(u, v)).serialize(), model + (v,), ('idx', len(model)))
        stored = view.serialize()
        for secret in fam.untouched(model, ops + half):
            if view is not obj:
                sim.probe('minimality')
                sim.check(secret not in stored, 'too-much', '%s: a value nobody looked at is stored (questions: %s)',
                          fam.describe(), show(ops))
        sim.log(' stored %d bytes', len(stored))
        base_stored = None if base is None else base.serialize()
        sim.fault('restart')
        u = world(sim, 'verifier%d' % generation)
        obj = fam.load(u, stored)
        # A stored view does not depend on what is asked first
        todo = list(ops)
        if sim.chance(50):
            todo = sim.shuffle(todo)
        if sim.chance(30):
            sim.check(obj.hash == root, 'root', '%s has another root after a restart', fam.describe())
        missing = False
        if sim.chance(50):
            ask(sim, fam, u, obj, model, len(todo), 'verifier', ops=todo)
            todo = []
        for _ in range(sim.choice((2, 1, 0, 4))):
            op = fam.op(sim, model)
            want, got = fam.expect(model, op), fam.do(u, obj, op)
            sim.log(' verifier %s -> %s', show(op), show(got))
            if got == ('exc', 'PrunedError'):
                missing = True
            else:
                sim.check(got == want, 'wrong-answer', '%s: %s on a loaded view gives %s, expected %s', fam.describe(),
                          show(op), show(got), show(want))
        if todo and sim.chance(15):
            interrupted(sim, lambda: fam.do(u, obj, todo[0]))
        ask(sim, fam, u, obj, model, len(todo), 'verifier', ops=todo)
        if sim.chance(30):
            sim.check(obj.serialize() == stored, 'restored', '%s: what was loaded is stored differently', fam.describe())
        if base is not None:
            o2 = fam.load(u, base_stored)
            ask(sim, fam, u, o2, model, len(base_ops), 'verifier', ops=base_ops)
            ask(sim, fam, u, o2, model, len(ops), 'verifier', ops=ops)
        sim.check(obj.hash == root, 'root', '%s has another root after a restart', fam.describe())
        if missing:
            sim.nontrivial = True
            sim.check(obj.is_pruned, 'is_pruned', 'a %s that misses something says it is not pruned', fam.describe())
        if view.is_pruned is False:
            sim.check(not missing, 'too-little', 'a complete %s misses something after a restart', fam.describe())
            sim.check(not obj.is_pruned, 'is_pruned', 'a complete %s says it is pruned after a restart', fam.describe())
        if derived is not None:
            b, m2, op = derived
            o2 = fam.load(u, b)
            sim.check(o2.hash == fam.root(m2), 'root', 'root of a changed view of a %s after a restart', fam.describe())
            sim.probe('derived')
            ask(sim, fam, u, o2, m2, 1, 'verifier', ops=[op])
        sim.state(fam.name, tuple(sorted(o[0] for o in ops)), generation, missing)
        known = ops
