"""String matching against the definition."""
import itertools
from .h import *

ALGS = ('kmp', 'rabin_karp', 'boyer_moore', 'z_function')
POOL = ['ab', 'a', 'abc', 'ab$', 'abcd', '01', '\x00\x01\u0101', 'xyz\U0001F600\u00e9', 'a$']


class Match(Target):
    files = ['strings/algorithms.py']
    alg = None
    weight = 1

    def small(self):
        for n in range(0, 8):
            for m in range(0, min(n + 2, 5)):
                for t in itertools.product('ab', repeat=n):
                    for q in itertools.product('ab', repeat=m):
                        yield [''.join(t), ''.join(q)]

    def gen(self, r):
        al = r.choice(POOL)
        s = lambda n: ''.join(r.choice(al) for _ in range(n))
        n = r.size(25)
        x = r.random()
        if x < .3:
            t = s(n)
            q = s(r.randint(0, 6))
        elif x < .6:                 # periodic text, pattern = a slice of it
            u = s(r.randint(1, 5))
            t = (u * (n // len(u) + 1))[:n]
            i = r.randint(0, n)
            q = t[i:i + r.randint(0, 12)]
        elif x < .8:
            q = s(r.randint(1, 12))
            t = ''.join(r.choice([q, q[:-1], q[1:], s(1), s(2)]) for _ in range(r.randint(0, 8)))
        else:                        # equal polynomial hashes in base 257
            q = ''.join(chr(r.randint(0, 3)) for _ in range(r.randint(1, 4)))
            t = ''
            for _ in range(r.randint(1, 4)):
                u = [ord(c) for c in q]
                if len(u) > 1 and r.chance(.7):
                    i = r.randrange(len(u) - 1)
                    if u[i + 1] > 0:
                        u[i] += 257
                        u[i + 1] -= 1
                t += ''.join(map(chr, u))
        return [t, q]

    def nontrivial(self, c):
        return len(c[1]) > 1 and len(c[0]) > 1

    def run(self, c):
        from pydatastructs import find
        t, q = c
        want = [i for i in range(len(t) - len(q) + 1) if t[i:i + len(q)] == q] if q else []
        got = find(t, q, algorithm=self.alg)
        got = [got[i] for i in range(got._last_pos_filled + 1)]
        eq(got, want, '%s: positions of %r in %r' % (self.alg, q, t))


for a, cov in (('kmp', ('_knuth_morris_pratt', '_build_kmp_table', '_do_match')), ('rabin_karp', ('_rabin_karp', '_hash_str', '_p_pow')),
               ('boyer_moore', ('_boyer_moore',)), ('z_function', ('_z_function', '_z_vector'))):
    target(type('Find_' + a, (Match,), dict(alg=a, covers=cov, __module__=__name__)))


@target
class FindAliases(Match):
    covers = ('find', '_knuth_morris_pratt')
    alg = 'knuth_morris_pratt'

    def run(self, c):
        Match.run(self, c)
        from pydatastructs import find
        must_raise(NotImplementedError, 'an unknown algorithm', find, c[0], c[1], algorithm='no_such')
