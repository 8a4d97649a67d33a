"""C22: workloads (the operations on dictionaries that combine them)."""
from pydv.api import *

D = "postbound.util.dicts"
P = ("C22",)


def _str(rng, size):
    return rng.choice(["q1", "q2", "q3", "q10", "a", "b"])


def _val(rng, size):
    return rng.randrange(5)


def _map(rng, size):
    return {_str(rng, size): _val(rng, size) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


Dict = Map(Str, Int)


class Difference(Contract):
    """the entries of the first dictionary whose keys are not in the second one"""
    target = f"{D}:difference"
    props = P
    params = {"a": Dict, "b": Dict}
    gens = {"a": _map, "b": _map}
    returns = Dict

    def ensures_kept(a, b, result):
        return forall(a.keys(), lambda k: (k in result) == (k not in b))

    def ensures_values(a, b, result):
        return forall(result.keys(), lambda k: k in a and result[k] == a[k])


class Intersection(Contract):
    """the entries of the first dictionary whose keys are in the second one, too"""
    target = f"{D}:intersection"
    props = P
    params = {"a": Dict, "b": Dict}
    gens = {"a": _map, "b": _map}
    returns = Dict

    def ensures_kept(a, b, result):
        return forall(a.keys(), lambda k: (k in result) == (k in b))

    def ensures_values(a, b, result):
        return forall(result.keys(), lambda k: k in a and result[k] == a[k])


class Merge(Contract):
    """the entries of both dictionaries, those of the second one have precedence"""
    target = f"{D}:merge"
    props = P
    params = {"a": Dict, "b": Dict}
    gens = {"a": _map, "b": _map}
    returns = Dict
    bounded = True
    note = "bounded: at most 5 entries"

    def ensures_keys(a, b, result):
        return forall(a.keys(), lambda k: k in result) and forall(b.keys(), lambda k: k in result) and forall(result.keys(), lambda k: k in a or k in b)

    def ensures_values(a, b, result):
        return forall(result.keys(), lambda k: result[k] == (b[k] if k in b else a[k]))


class MergeUpdater(Contract):
    """entries in both dictionaries are combined"""
    target = f"{D}:merge"
    family = "updater"
    props = P
    params = {"a": Dict, "b": Dict, "updater": Func("DictUpdater", [Str, Int, Int], Int)}
    gens = {"a": _map, "b": _map, "updater": lambda rng, size: (lambda k, x, y: 100 * x + 10 * y + len(k))}
    returns = Dict
    bounded = True
    note = "bounded: at most 5 entries"

    def ensures_keys(a, b, result):
        return forall(a.keys(), lambda k: k in result) and forall(b.keys(), lambda k: k in result) and forall(result.keys(), lambda k: k in a or k in b)

    def ensures_values(a, b, updater, result):
        return forall(result.keys(), lambda k: result[k] == (a[k] if k not in b else updater(k, a[k], b[k]) if k in a else b[k]))


class Update(Contract):
    """each value is replaced, the keys stay the same"""
    target = f"{D}:update"
    props = P
    params = {"dictionary": Dict, "updater": Func("DictMapper", [Str, Int], Int)}
    gens = {"dictionary": _map, "updater": lambda rng, size: (lambda k, x: 10 * x + len(k))}
    returns = Dict

    def ensures_keys(dictionary, result):
        return forall(dictionary.keys(), lambda k: k in result) and forall(result.keys(), lambda k: k in dictionary)

    def ensures_values(dictionary, updater, result):
        return forall(result.keys(), lambda k: result[k] == updater(k, dictionary[k]))


class Invert(Contract):
    """keys and values are exchanged"""
    target = f"{D}:invert"
    props = P
    params = {"mapping": Dict}
    gens = {"mapping": _map}
    returns = Map(Int, Str)

    def ensures_all(mapping, result):
        return forall(mapping.keys(), lambda k: mapping[k] in result)

    def ensures_no_more(mapping, result):
        return forall(result.keys(), lambda v: result[v] in mapping and mapping[result[v]] == v)


class TheKey(Contract):
    """the only key of a dictionary"""
    target = f"{D}:key"
    props = P
    params = {"dictionary": Dict}
    gens = {"dictionary": _map}
    returns = Str
    raises = {"ValueError": "not_one"}

    def not_one(dictionary):
        return len(dictionary) != 1

    def ensures_key(dictionary, result):
        return result in dictionary


class TheValue(Contract):
    """the only value of a dictionary"""
    target = f"{D}:value"
    props = P
    params = {"dictionary": Dict}
    gens = {"dictionary": _map}
    returns = Int
    raises = {"ValueError": "not_one"}

    def not_one(dictionary):
        return len(dictionary) != 1

    def ensures_value(dictionary, result):
        return exists(dictionary.keys(), lambda k: dictionary[k] == result)
