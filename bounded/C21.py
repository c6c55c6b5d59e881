"""Trie against a set of strings."""
from .h import *

W = ['', 'a', 'b', 'ab', 'abc', 'aa', 'ba', 'abd']


@target
class Trie(Hist):
    files = ['strings/trie.py', 'utils/misc_util.py']
    covers = ('Trie', 'TrieNode')
    maxlen = 3
    mx = 25
    inits = ([], ['a', 'abc'], ['ab', 'aa', 'abcd'])

    def alphabet(self):
        for w in ('', 'a', 'ab', 'abc', 'b'):
            yield ['ins', w]
            yield ['del', w]

    def word(self, r, c):
        x = r.random()
        old = [o[1] for o in c['ops']] + list(c['init'] or [])
        if old and x < .5:
            w = r.choice(old)
            y = r.random()
            return w if y < .5 else (w[:r.randint(0, len(w))] if y < .75 else w + r.choice('abc'))
        return ''.join(r.choice('abc\u00e9') for _ in range(r.randint(0, 6)))

    def op(self, r, c):
        return [r.choice(['ins', 'ins', 'del']), self.word(r, c)]

    def run(self, c):
        import pydatastructs as p
        t = p.Trie()
        ref = set()
        for w in c['init']:
            t.insert(w)
            ref.add(w)
        self.inv(t, ref, 'after construction')
        for op in c['ops']:
            if op[0] == 'ins':
                eq(t.insert(op[1]), None, 'result of insert')
                ref.add(op[1])
            else:
                got = t.delete(op[1])
                eq(bool(got), op[1] in ref, 'result of delete(%r)' % op[1])
                if op[1] not in ref:
                    eq(got, None, 'result of delete(%r) of an absent string' % op[1])
                ref.discard(op[1])
            self.inv(t, ref, 'after %r' % (op,))

    def inv(self, t, ref, w):
        pref = {''} | {s[:i] for s in ref for i in range(len(s) + 1)}
        qs = {x + y for x in pref for y in ('', 'a', 'b', '\u00e9')}
        for q in sorted(qs):
            eq(t.is_inserted(q), q in ref, '%s: is_inserted(%r)' % (w, q))
            eq(t.is_present(q), q in pref, '%s: is_present(%r)' % (w, q))
            eq(sorted(t.strings_with_prefix(q)), sorted(s for s in ref if s.startswith(q)), '%s: strings_with_prefix(%r)' % (w, q))
        todo, n = [(t.root, '')], 0
        while todo:
            x, s = todo.pop()
            n += 1
            check(x is t.root or x._children or x.is_terminal, '%s: an empty branch is left at %r' % (w, s))
            for ch, y in x._children.items():
                eq(y.char, ch, w + ': character stored in a node')
                todo.append((y, s + ch))
        eq(n, len(pref), w + ': number of nodes')
