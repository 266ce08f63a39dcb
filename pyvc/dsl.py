"""Contracts: one declaration, read two ways.

A contract names a function of /repo and gives, as ordinary Python over an
environment E, its arguments, precondition (`requires`), the exact result and the
exact final value of every argument it may change (`spec`), further postconditions
(`ensures`) and consequences of the specification (`lemmas`).  Under the prover
(pyvc.sym) E builds terms and every clause becomes proof obligations about the
code's AST; in the concrete runner (conc) E evaluates the same text on numbers.

This module must import in both interpreters: it uses neither z3 nor numpy."""

REGISTRY = {}


class NS:
    """attribute namespace"""

    def __init__(self, d=None):
        self.__dict__.update(d or {})

    def __getitem__(self, k):
        return self.__dict__[k]


class Contract:
    file = None          # path below reliabilityassessment/
    func = None
    props = ()           # properties every obligation of this contract serves
    parts = {}           # output or lemma name -> properties (overrides props)
    modifies = ()        # arguments that may change
    exits = False        # sys.exit / return None allowed
    modular = True       # callers use the contract (else the body is inlined)
    result_names = None

    @classmethod
    def name(cls):
        return cls.file.replace("/", ".")[:-3] + ":" + cls.func

    # --- to override -----------------------------------------------------
    @staticmethod
    def args(E):
        raise NotImplementedError

    @staticmethod
    def requires(E, o):
        return []

    @staticmethod
    def spec(E, o):
        """-> (result, {arg: final value})"""
        return None, {}

    @staticmethod
    def ensures(E, o, n, r):
        """-> [(name, formula)] over old arguments, new arguments and result"""
        return []

    @staticmethod
    def lemmas(E, o):
        return []

    @staticmethod
    def gen(rng, k):
        """-> dict of arguments for the k-th concrete call"""
        raise NotImplementedError


def contract(cls):
    REGISTRY[cls.__name__] = cls
    return cls


ANY = object()   # spec value: not specified
