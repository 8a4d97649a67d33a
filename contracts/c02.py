"""C02: plan parameters store what was assigned and combine without losing or mixing up hints."""
from pydv.api import *
from contracts.model import *
from contracts.c01 import Params

PP = f"{HINTS}:PlanParameterization"
P = ("C02",)


def unchanged_except(a, b):
    return same(a.cardinalities, b.cardinalities) and same(a.parallel_workers, b.parallel_workers) \
        and same(a.system_settings, b.system_settings) and same(a.execution_mode, b.execution_mode)


class ParamsInit(Contract):
    target = f"{PP}.__init__"
    props = P
    params = {"self": Obj("NewParams", PP, {})}
    modifies = ["self"]
    returns = NoneT
    use_at_calls = False

    def ensures(self):
        return len(self.cardinalities) == 0 and len(self.parallel_workers) == 0 and len(self.system_settings) == 0 \
            and self.execution_mode is None


class AddCardinality(Contract):
    target = f"{PP}.add_cardinality"
    props = P
    params = {"self": Params, "tables": Tables, "cardinality": Card}
    modifies = ["self.cardinalities"]
    returns = "self"

    def ensures(self, old_self, tables, cardinality):
        return same(self.cardinalities, mapput(old_self.cardinalities, tables, cardinality))


class AddCardinalityFromList(Contract):
    target = f"{PP}.add_cardinality"
    props = P
    params = {"self": Params, "tables": Seq(Table), "cardinality": Card}
    modifies = ["self.cardinalities"]
    returns = "self"

    def ensures(self, old_self, tables, cardinality):
        return same(self.cardinalities, mapput(old_self.cardinalities, frozenset(tables), cardinality))


class AddNumber(Contract):
    target = f"{PP}.add_cardinality"
    props = P
    params = {"self": Params, "tables": Tables, "cardinality": Int}
    modifies = ["self.cardinalities"]
    returns = "self"
    bounded = True
    note = "plain numbers are converted by Cardinality.of (C03)"

    def ensures(self, old_self, tables, cardinality):
        c = self.cardinalities[tables]
        return c.is_valid() and c.value == cardinality and same(self.cardinalities, mapput(old_self.cardinalities, tables, c))


class SetWorkers(Contract):
    target = f"{PP}.set_workers"
    props = P
    params = {"self": Params, "tables": Tables, "num_workers": Flt}
    modifies = ["self.parallel_workers"]
    returns = "self"

    def ensures(self, old_self, tables, num_workers):
        return same(self.parallel_workers, mapput(old_self.parallel_workers, tables, num_workers))


class SetWorkersFromList(Contract):
    target = f"{PP}.set_workers"
    props = P
    params = {"self": Params, "tables": Seq(Table), "num_workers": Flt}
    modifies = ["self.parallel_workers"]
    returns = "self"

    def ensures(self, old_self, tables, num_workers):
        return same(self.parallel_workers, mapput(old_self.parallel_workers, frozenset(tables), num_workers))


class SetSetting(Contract):
    target = f"{PP}.set_system_settings"
    props = P
    params = {"self": Params, "setting_name": Str, "setting_value": Any}
    modifies = ["self.system_settings"]
    returns = "self"
    raises = {"ValueError": "nothing"}

    def nothing(setting_name):
        return setting_name == ""

    def ensures(self, old_self, setting_name, setting_value):
        return same(self.system_settings, mapput(old_self.system_settings, setting_name, setting_value))


class SetSettingKw(Contract):
    target = f"{PP}.set_system_settings"
    props = P
    params = {"self": Params, "setting_name": MISSING, "setting_value": MISSING, "kwargs": KwDict(jit=Any, geqo=Any)}
    modifies = ["self.system_settings"]
    returns = "self"

    def ensures(self, old_self, kwargs):
        return same(self.system_settings, mapmerge(old_self.system_settings, kwargs))


class SetSettingBoth(Contract):
    target = f"{PP}.set_system_settings"
    props = P
    params = {"self": Params, "setting_name": Str, "setting_value": Any, "kwargs": KwDict(jit=Any)}
    modifies = ["self.system_settings"]
    returns = "self"
    raises = {"ValueError": "both"}

    def both(setting_name):
        return setting_name != ""

    def ensures(self, old_self, kwargs):
        return same(self.system_settings, mapmerge(old_self.system_settings, kwargs))


class MergeParams(Contract):
    target = f"{PP}.merge_with"
    props = P
    params = {"self": Params, "other_parameters": Params}
    returns = Params

    def ensures_cards(self, other_parameters, result):
        return same(result.cardinalities, mapmerge(self.cardinalities, other_parameters.cardinalities))

    def ensures_workers(self, other_parameters, result):
        return same(result.parallel_workers, mapmerge(self.parallel_workers, other_parameters.parallel_workers))

    def ensures_settings(self, other_parameters, result):
        return same(result.system_settings, mapmerge(self.system_settings, other_parameters.system_settings))

    def ensures_mode(self, other_parameters, result):
        return same(result.execution_mode, self.execution_mode if other_parameters.execution_mode is None else other_parameters.execution_mode)

    def ensures_fresh(self, other_parameters, result):
        return result is not self and result is not other_parameters and result.cardinalities is not self.cardinalities \
            and result.cardinalities is not other_parameters.cardinalities and result.parallel_workers is not self.parallel_workers \
            and result.system_settings is not self.system_settings and result.system_settings is not other_parameters.system_settings


class DropWorkers(Contract):
    target = f"{PP}.drop_workers"
    props = P
    params = {"self": Params}
    returns = Params

    def ensures(self, result):
        return same(result.cardinalities, self.cardinalities) and same(result.system_settings, self.system_settings) \
            and same(result.execution_mode, self.execution_mode) and len(result.parallel_workers) == 0

    def ensures_fresh(self, result):
        return result is not self and result.cardinalities is not self.cardinalities \
            and result.system_settings is not self.system_settings and result.parallel_workers is not self.parallel_workers


class MergeAssociates(Lemma):
    props = P
    params = {"a": Params, "b": Params, "c": Params}

    def lemma(a, b, c):
        return unchanged_except(a.merge_with(b).merge_with(c), a.merge_with(b.merge_with(c)))


class MergeWithNothing(Lemma):
    props = P
    params = {"a": Params}

    def lemma(a):
        return unchanged_except(a.merge_with(PlanParameterization()), a) and unchanged_except(PlanParameterization().merge_with(a), a)


use(HINTS, "PlanParameterization")
