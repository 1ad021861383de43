"""Links of call chains: every link passes control to the next one, the last one makes the call under observation.

chain: a list of links followed by one tuple (function, args, kwargs).
LINKS: (callable, class name or '', code name)
"""


def plain(chain):
    c = chain[0]
    return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])


def with_underscores_2(chain):
    c = chain[0]
    return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])


def outer(chain):
    def inner(rest):
        c = rest[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(rest[1:])
    return inner(chain)


def maker(chain):
    def Base(rest):                         # the namesake of a class: its logger is named like a prefix of others
        c = rest[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(rest[1:])
    return Base(chain)


in_lambda = lambda chain: chain[0][0](*chain[0][1], **chain[0][2]) if type(chain[0]) is tuple else chain[0](chain[1:])


class Base:
    def method(self, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])

    def over(self, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])

    def __call__(self, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])

    @staticmethod
    def static(chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])

    @classmethod
    def klass(cls, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])

    def nested(self, chain):
        def local(rest):
            c = rest[0]
            return c[0](*c[1], **c[2]) if type(c) is tuple else c(rest[1:])
        return local(chain)

    def closing(self, chain):
        def local(rest):
            _ = self
            c = rest[0]
            return c[0](*c[1], **c[2]) if type(c) is tuple else c(rest[1:])
        return local(chain)

    @property
    def prop(self):
        return lambda chain: plain(chain)


class Derived(Base):
    def over(self, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])


class AVeryLongNameOfAClassWhichCallsTheToolboxAgainAndAgain(Base):
    def a_method_with_an_equally_long_name_which_does_nothing_else_but_call(self, chain):
        c = chain[0]
        return c[0](*c[1], **c[2]) if type(c) is tuple else c(chain[1:])


# (callable, names of the frames it adds, outermost first)
LINKS = [
    (plain, [('', 'plain')]),
    (with_underscores_2, [('', 'with_underscores_2')]),
    (outer, [('', 'outer'), ('', 'inner')]),
    (in_lambda, [('', '<lambda>')]),
    (maker, [('', 'maker'), ('', 'Base')]),
    (Base().method, [('Base', 'method')]),
    (Base().over, [('Base', 'over')]),
    (Base(), [('Base', '__call__')]),
    (Base.static, [('', 'static')]),
    (Base.klass, [('', 'klass')]),
    (Base().nested, [('Base', 'nested'), ('', 'local')]),
    (Base().closing, [('Base', 'closing'), ('Base', 'local')]),
    (Derived().method, [('Derived', 'method')]),
    (Derived().over, [('Derived', 'over')]),
    (Derived.klass, [('', 'klass')]),
    (AVeryLongNameOfAClassWhichCallsTheToolboxAgainAndAgain().a_method_with_an_equally_long_name_which_does_nothing_else_but_call,
     [('AVeryLongNameOfAClassWhichCallsTheToolboxAgainAndAgain',
       'a_method_with_an_equally_long_name_which_does_nothing_else_but_call')]),
]
