"""All histories of operations up to a depth, run on the real interpreter in lockstep with a model.

An operation is (name, text, fn): text is a Dictu expression; fn(state) -> (state after, printed result), or ERR if it must end with a runtime error and
leave everything as it was. A state is any Python value; fn must not modify it. The result may be None: not compared (address-like).
"""
import mc

ERR = "<runtime error>"
ANY = None


def histories(sh, w, prelude, init, ops, depth, show, first=None, filt=None, n=600, flags=0, gc=(0, 0, 0), maxrep=3, assign=None, lost=False):
    """init: (name, code, state). show(state) -> (code, expected text). Explores every sequence of at most depth operations from init whose first
    operation has an index in first. filt(path, i) prunes. Every prefix is itself a history, so only the last result and the final state are printed."""
    iname, icode, istate = init
    items = []

    def flush():
        ok = mc.session(sh, w, items, prelude=prelude, n=1800, flags=flags, gc=gc, maxrep=maxrep)
        del items[:]
        return ok

    def go(path, code, state, d):
        for i, (name, text, fn) in enumerate(ops):
            if d == 0 and first is not None and i not in first:
                continue
            if filt and not filt(path, i):
                continue
            r = fn(state)
            p = path + (i,)
            key = "%s:%s" % (iname, ".".join(ops[k][0] for k in p))
            sh.counts["histories"] += 1
            if r is ERR:
                sc, se = show(state)
                items.append(("err:" + key, icode + code + "print(%s);" % text, mc.fails(out="")))
                items.append(("after:" + key, sc, se))
                sh.counts["refused"] += 1
            else:
                st, res = r
                sc, se = show(st)
                if res is ANY:
                    items.append((key, icode + code + "%s;\n" % text + sc, se))
                else:
                    items.append((key, icode + code + "print(%s);\n" % text + sc, res + "\n" + se))
                if d + 1 < depth:
                    yield from go(p, code + text + ";\n", st, d + 1)
            if len(items) >= n:
                if not flush():
                    return
                yield
    for _ in go((), "", istate, 0):
        if len(sh.violations) >= maxrep:
            return
    flush()
