"""C10: optimization pipelines only optimize what their stages support, and run their stages in order."""
from pydv.api import *
from contracts.model import *

PL = "postbound._pipelines"
ST = "postbound._stages"
V = "postbound.validation"
QAL = "postbound.qal._qal"
TR = "postbound.train._train"
DBM = "postbound.db._db"
use(PL, "IntegratedOptimizationPipeline", "MultiStageOptimizationPipeline", "TextBookOptimizationPipeline", "IncrementalOptimizationPipeline")
use(ST, "PlanEnumerator", "CostModel", "CardinalityEstimator")
use("postbound._hints", "PhysicalOperatorAssignment", "PlanParameterization")
P = ("C10",)


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


Query = Ref("PlQuery", [f"{QAL}:SqlQuery"], eq="term", opaque=True, gen=_g("query"))
Plan = Ref("PlPlan", ["postbound._qep:QueryPlan"], eq="term", opaque=True, gen=lambda rng, size: ("plan", rng.randint(0, 3)))
JoinOrder = Ref("PlTree", [f"{HINTS}:JoinTree"], eq="term", opaque=True)
Ops = Ref("PlOps", [f"{HINTS}:PhysicalOperatorAssignment"], eq="term", opaque=True)
Pars = Ref("PlParams", [f"{HINTS}:PlanParameterization"], eq="term", opaque=True)
Result = Ref("PlResult", [f"{V}:PreCheckResult"], fields={"passed": Bool, "failure_reason": Any}, eq="struct")
Check = Ref("PlCheck", [f"{V}:OptimizationPreCheck"], eq="term", opaque=True, gen=_g("precheck"), truthy=True)
HintSvc = Ref("PlHinting", [f"{DBM}:HintService"], eq="term", opaque=True)
Optimizer = Ref("PlOptimizer", [f"{DBM}:OptimizerInterface"], eq="term", opaque=True)
Db = Ref("PlDb", [f"{DBM}:Database"], eq="term", opaque=True, gen=_g("pipeline_db"), attrs={"hinting()": HintSvc, "optimizer()": Optimizer})
A = {"pre_check()": Check, "name": Str, "requires_data_training()": Bool, "database_fit_completed()": Bool, "requires_workload_training()": Bool,
     "workload_fit_completed()": Bool, "requires_sample_training()": Bool, "sample_fit_completed()": Bool, "uses_online_feedback()": Bool,
     "sample_spec()": Any}
Complete = Ref("PlComplete", [f"{ST}:CompleteOptimizationAlgorithm"], eq="term", opaque=True, truthy=True, gen=_g("stage", "complete"), attrs=A)
JoinStage = Ref("PlJoin", [f"{ST}:JoinOrderOptimization"], eq="term", opaque=True, truthy=True, gen=_g("stage", "join"), attrs=A)
OpStage = Ref("PlOperators", [f"{ST}:PhysicalOperatorSelection"], eq="term", opaque=True, truthy=True, gen=_g("stage", "ops"), attrs=A)
ParStage = Ref("PlParameters", [f"{ST}:ParameterGeneration", f"{ST}:CardinalityEstimator"], eq="term", opaque=True, truthy=True, gen=_g("stage", "params"), attrs=A)
CardStage = Ref("PlCard", [f"{ST}:CardinalityEstimator"], eq="term", opaque=True, truthy=True, gen=_g("stage", "card"), attrs=A)
CostStage = Ref("PlCost", [f"{ST}:CostModel"], eq="term", opaque=True, truthy=True, gen=_g("stage", "cost"), attrs=A)
EnumStage = Ref("PlEnum", [f"{ST}:PlanEnumerator"], eq="term", opaque=True, truthy=True, gen=_g("stage", "enum"), attrs=A)
Step = Ref("PlStep", [f"{ST}:IncrementalOptimizationStep"], eq="term", opaque=True, truthy=True, gen=_g("stage", "step"), attrs=A)


class CheckQuery(Contract):
    target = f"{V}:OptimizationPreCheck.check_supported_query"
    props = P
    params = {"self": Check, "query": Query}
    returns = Result
    trusted = True
    note = "an arbitrary check decides on queries (see C09)"


class CheckDb(Contract):
    target = f"{V}:OptimizationPreCheck.check_supported_database_system"
    props = P
    params = {"self": Check, "database_instance": Db}
    returns = Result
    trusted = True
    note = "an arbitrary check decides on database systems (see C09)"


class MergeChecks(Contract):
    target = f"{V}:merge_checks"
    props = P
    params = {"checks": Seq(Check)}
    returns = Check
    trusted = True
    note = "merging checks is the subject of C09"


class GenerateHints(Contract):
    target = f"{DBM}:HintService.generate_hints"
    props = P
    params = {"self": HintSvc, "query": Query, "plan": Opt(Plan), "join_order": Opt(JoinOrder), "physical_operators": Opt(Ops), "plan_parameters": Opt(Pars)}
    returns = Query
    trusted = True
    note = "an arbitrary hinting service of an arbitrary database system"


class NativePlan(Contract):
    target = f"{DBM}:OptimizerInterface.query_plan"
    props = P
    params = {"self": Optimizer, "query": Query}
    returns = Plan
    trusted = True
    note = "the optimizer of an arbitrary database system"


class RunComplete(Contract):
    target = f"{ST}:CompleteOptimizationAlgorithm.optimize_query"
    props = P
    params = {"self": Complete, "query": Query}
    returns = Plan
    trusted = True
    note = "an arbitrary optimization algorithm"


class RunJoin(Contract):
    target = f"{ST}:JoinOrderOptimization.optimize_join_order"
    props = P
    params = {"self": JoinStage, "query": Query}
    returns = Opt(JoinOrder)
    trusted = True
    note = "an arbitrary join order optimization"


class RunOperators(Contract):
    target = f"{ST}:PhysicalOperatorSelection.select_physical_operators"
    props = P
    params = {"self": OpStage, "query": Query, "join_order": Opt(JoinOrder)}
    returns = Ops
    trusted = True
    note = "an arbitrary operator selection"


class RunParams(Contract):
    target = f"{ST}:ParameterGeneration.generate_plan_parameters"
    props = P
    params = {"self": ParStage, "query": Query, "join_order": Opt(JoinOrder), "operator_assignment": Opt(Ops)}
    returns = Pars
    trusted = True
    note = "an arbitrary parameter generation"


class RunEstimates(Contract):
    target = f"{ST}:CardinalityEstimator.generate_plan_parameters"
    props = P
    params = RunParams.params
    returns = Pars
    trusted = True
    note = "an arbitrary parameter generation that is a cardinality estimator"


class RunEnum(Contract):
    target = f"{ST}:PlanEnumerator.generate_execution_plan"
    props = P
    params = {"self": EnumStage, "query": Query, "cost_model": CostStage, "cardinality_estimator": CardStage}
    returns = Plan
    trusted = True
    note = "an arbitrary plan enumeration"


class RunStep(Contract):
    target = f"{ST}:IncrementalOptimizationStep.optimize_query"
    props = P
    params = {"self": Step, "query": Query, "current_plan": Plan}
    returns = Plan
    trusted = True
    note = "an arbitrary optimization step"


class BeginEstimation(Contract):
    target = f"{ST}:CardinalityEstimator.initialize"
    props = P
    params = {"self": ParStage, "target_db": Db, "query": Query}
    returns = NoneT
    trusted = True
    note = "stages are values here; initialization and cleanup are checked at run time (MultiStageRun)"


class EndEstimation(Contract):
    target = f"{ST}:CardinalityEstimator.cleanup"
    props = P
    params = {"self": ParStage}
    returns = NoneT
    trusted = True
    note = BeginEstimation.note


Integrated = Obj("Integrated", f"{PL}:IntegratedOptimizationPipeline", {"_target_db": Db, "_optimization_algorithm": Opt(Complete), "_build": Bool},
                 gen=_g("pipeline", "integrated"))
Multi = Obj("Multi", f"{PL}:MultiStageOptimizationPipeline", {
    "_target_db": Db, "_pre_check": Opt(Check), "_support_check": Check, "_join_order_enumerator": Opt(JoinStage), "_physical_operator_selection": Opt(OpStage),
    "_plan_parameterization": Opt(ParStage), "_build": Bool}, gen=_g("pipeline", "multi"))
TextBook = Obj("TextBook", f"{PL}:TextBookOptimizationPipeline", {"_target_db": Db, "_card_est": CardStage, "_cost_model": CostStage,
               "_plan_enumerator": EnumStage, "_support_check": Check, "_build": Bool}, gen=_g("pipeline", "textbook"))
Incremental = Obj("Incremental", f"{PL}:IncrementalOptimizationPipeline", {"_target_db": Db, "_initial_plan_generator": Opt(Complete),
                  "_optimization_steps": Seq(Step)}, gen=_g("pipeline", "incremental"))


def db_ok(check, db):
    return check.check_supported_database_system(db).passed


def query_ok(check, q):
    return check.check_supported_query(q).passed


class IntegratedUse(Contract):
    """another algorithm requires another build"""
    target = f"{PL}:IntegratedOptimizationPipeline.use"
    props = P
    params = {"self": Integrated, "algorithm": Complete}
    modifies = ["self._optimization_algorithm", "self._build"]
    returns = "self"

    def ensures(self, algorithm):
        return same(self.optimization_algorithm, algorithm) and not self._build


class IntegratedBuild(Contract):
    target = f"{PL}:IntegratedOptimizationPipeline.build"
    props = P
    params = {"self": Integrated}
    modifies = ["self._build"]
    returns = "self"
    raises = {"StateError": "no_algorithm", "UnsupportedSystemError": "unsupported"}

    def no_algorithm(self):
        return self._optimization_algorithm is None

    def unsupported(self):
        return self._optimization_algorithm is not None and not db_ok(self._optimization_algorithm.pre_check(), self._target_db)

    def ensures(self):
        return self._build


class IntegratedPlan(Contract):
    """only queries supported by the algorithm are optimized, by the algorithm"""
    target = f"{PL}:IntegratedOptimizationPipeline.query_execution_plan"
    props = P
    params = {"self": Integrated, "query": Query}
    returns = Plan
    raises = {"StateError": "not_built", "UnsupportedQueryError": "unsupported"}

    def requires(self):
        return self._optimization_algorithm is not None

    def not_built(self):
        return not self._build

    def unsupported(self, query):
        return self._build and not query_ok(self._optimization_algorithm.pre_check(), query)

    def ensures(self, query, result):
        return same(result, self._optimization_algorithm.optimize_query(query))


class IntegratedTarget(Contract):
    target = f"{PL}:IntegratedOptimizationPipeline.target_db"
    props = P
    params = {"self": Integrated}
    returns = Db
    note = "getter"

    def ensures(self, result):
        return same(result, self._target_db)


class MultiBuild(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.build"
    props = P
    params = {"self": Multi}
    modifies = ["self._build", "self._support_check"]
    returns = "self"

    may_raise = ("UnsupportedSystemError",)

    def ensures(self):
        return self._build and db_ok(self._support_check, self._target_db)


class MultiRun(Contract):
    """the stages run in order, each with the results of the previous ones, and only on supported queries"""
    target = f"{PL}:MultiStageOptimizationPipeline.optimize_query"
    props = P
    params = {"self": Multi, "query": Query}
    returns = Query
    raises = {"StateError": "not_built", "UnsupportedQueryError": "unsupported"}

    def requires(self):
        return self._physical_operator_selection is not None and self._plan_parameterization is not None

    def not_built(self):
        return not self._build

    def unsupported(self, query):
        return self._build and not query_ok(self._support_check, query)

    def ensures(self, query, result):
        j = self._join_order_enumerator.optimize_join_order(query) if self._join_order_enumerator is not None else None
        o = self._physical_operator_selection.select_physical_operators(query, j)
        p = self._plan_parameterization.generate_plan_parameters(query, j, o)
        return same(result, self._target_db.hinting().generate_hints(query, join_order=j, physical_operators=o, plan_parameters=p))


class TextBookBuild(Contract):
    target = f"{PL}:TextBookOptimizationPipeline.build"
    props = P
    params = {"self": TextBook}
    modifies = ["self._build", "self._support_check"]
    returns = "self"
    may_raise = ("UnsupportedSystemError",)

    def ensures(self):
        return self._build and db_ok(self._support_check, self._target_db)


class TextBookPlan(Contract):
    target = f"{PL}:TextBookOptimizationPipeline.query_execution_plan"
    props = P
    params = {"self": TextBook, "query": Query}
    returns = Plan
    raises = {"StateError": "not_built", "UnsupportedQueryError": "unsupported"}

    def not_built(self):
        return not self._build

    def unsupported(self, query):
        return self._build and not query_ok(self._support_check, query)

    def ensures(self, query, result):
        return same(result, self._plan_enumerator.generate_execution_plan(query, cost_model=self._cost_model, cardinality_estimator=self._card_est))


class IncrementalAdd(Contract):
    """a step that does not fit the database system is rejected"""
    target = f"{PL}:IncrementalOptimizationPipeline.add_optimization_step"
    props = P
    params = {"self": Incremental, "next_step": Step}
    modifies = ["self._optimization_steps"]
    returns = "self"
    raises = {"UnsupportedSystemError": "unsupported"}

    def unsupported(self, next_step):
        return not db_ok(next_step.pre_check(), self._target_db) or exists(self._optimization_steps, lambda s: not db_ok(s.pre_check(), self._target_db)) \
            or (self._initial_plan_generator is not None and not db_ok(self._initial_plan_generator.pre_check(), self._target_db))

    def ensures(self, old_self, next_step):
        return same(self._optimization_steps, old_self._optimization_steps + [next_step])


class IncrementalPlan(Contract):
    target = f"{PL}:IncrementalOptimizationPipeline.query_execution_plan"
    props = P
    params = {"self": Incremental, "query": Query}
    returns = Plan
    raises = {"UnsupportedQueryError": "unsupported"}
    invariants = {0: ("so_far", {"current_plan": Plan})}

    def unsupported(self, query):
        return exists(self._optimization_steps, lambda s: not query_ok(s.pre_check(), query)) \
            or (self._initial_plan_generator is not None and not query_ok(self._initial_plan_generator.pre_check(), query))

    def ensures(self, query, result):
        return same(result, refine(self._optimization_steps, len(self._optimization_steps), query, first_plan(self, query)))

    def so_far(self, query, current_plan, k):
        return same(current_plan, refine(self._optimization_steps, k, query, first_plan(self, query)))


def first_plan(self, query):
    return self._initial_plan_generator.optimize_query(query) if self._initial_plan_generator is not None else self._target_db.optimizer().query_plan(query)


@spec(Seq(Step), Int, Query, Plan, ret=Plan)
def refine(steps, n, q, p):
    """the first n steps applied to the plan p"""
    return p if n <= 0 else steps[n - 1].optimize_query(q, refine(steps, n - 1, q, p))


# ---- configuring pipelines ----------------------------------------------------------------------------------------------


class MultiSetupCheck(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.setup_query_support_check"
    props = P
    params = {"self": Multi, "check": Check}
    modifies = ["self._pre_check", "self._build"]
    returns = "self"

    def ensures(self, check):
        return same(self.pre_check, check) and not self._build


class MultiSetupJoin(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.setup_join_order_optimization"
    props = P
    params = {"self": Multi, "enumerator": JoinStage}
    modifies = ["self._join_order_enumerator", "self._build"]
    returns = "self"

    def ensures(self, enumerator):
        return same(self.join_order_enumerator, enumerator) and not self._build


class MultiSetupOps(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.setup_physical_operator_selection"
    props = P
    params = {"self": Multi, "selector": OpStage}
    modifies = ["self._physical_operator_selection", "self._build"]
    returns = "self"

    def ensures(self, selector):
        return same(self.physical_operator_selection, selector) and not self._build


class MultiSetupParams(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.setup_plan_parameterization"
    props = P
    params = {"self": Multi, "param_generator": ParStage}
    modifies = ["self._plan_parameterization", "self._build"]
    returns = "self"

    def ensures(self, param_generator):
        return same(self.plan_parameterization, param_generator) and not self._build


class MultiUseJoin(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.use"
    props = P
    params = {"self": Multi, "component": JoinStage}
    modifies = ["self._join_order_enumerator", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self.join_order_enumerator, component) and not self._build


class MultiUseOps(Contract):
    target = MultiUseJoin.target
    props = P
    params = {"self": Multi, "component": OpStage}
    modifies = ["self._physical_operator_selection", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self.physical_operator_selection, component) and not self._build


class MultiUseParams(Contract):
    target = MultiUseJoin.target
    props = P
    params = {"self": Multi, "component": ParStage}
    modifies = ["self._plan_parameterization", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self.plan_parameterization, component) and not self._build


class TextBookUseEnum(Contract):
    target = f"{PL}:TextBookOptimizationPipeline.use"
    props = P
    params = {"self": TextBook, "component": EnumStage}
    modifies = ["self._plan_enumerator", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self._plan_enumerator, component) and not self._build


class TextBookUseCost(Contract):
    target = TextBookUseEnum.target
    props = P
    params = {"self": TextBook, "component": CostStage}
    modifies = ["self._cost_model", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self._cost_model, component) and not self._build


class TextBookUseCard(Contract):
    target = TextBookUseEnum.target
    props = P
    params = {"self": TextBook, "component": CardStage}
    modifies = ["self._card_est", "self._build"]
    returns = "self"

    def ensures(self, component):
        return same(self._card_est, component) and not self._build


class MultiTarget(Lemma):
    """another database system requires another build"""
    props = P
    params = {"p": Multi, "db": Db}
    gens = {"db": _g("pipeline_db")}
    modifies = ["p._target_db", "p._build"]

    def lemma(p, db):
        p.target_db = db
        return same(p.target_db, db) and same(p.target_database(), db) and not p._build


class IntegratedRetarget(Lemma):
    """another database system requires another build"""
    props = P
    params = {"p": Integrated, "db": Db}
    gens = {"db": _g("pipeline_db")}
    modifies = ["p._target_db", "p._build"]

    def lemma(p, db):
        p.target_db = db
        return same(p.target_db, db) and same(p.target_database(), db) and not p._build


# ---- the order of stages and their training -----------------------------------------------------------------------------


class IntegratedStages(Contract):
    target = f"{PL}:IntegratedOptimizationPipeline.stages"
    props = P
    params = {"self": Integrated}
    returns = Seq(Complete)

    def ensures(self, result):
        return same(result, [self._optimization_algorithm] if self._optimization_algorithm is not None else [])


class IncrementalStages(Contract):
    target = f"{PL}:IncrementalOptimizationPipeline.stages"
    props = P
    params = {"self": Incremental}
    returns = None

    bounded = True
    note = "the list contains stages of different kinds"

    def ensures(self, result):
        first = [] if self._initial_plan_generator is None else [self._initial_plan_generator]
        return same(list(result), first + list(self._optimization_steps))


class MultiStages(Contract):
    target = f"{PL}:MultiStageOptimizationPipeline.stages"
    props = P
    params = {"self": Multi}
    returns = None
    bounded = True
    note = "the list contains stages of different kinds"

    def ensures(self, result):
        return same(result, present([self._join_order_enumerator, self._physical_operator_selection, self._plan_parameterization]))


def present(stages):
    return [s for s in stages if s is not None]


class TextBookStages(Contract):
    target = f"{PL}:TextBookOptimizationPipeline.stages"
    props = P
    params = {"self": TextBook}
    returns = None

    def ensures(self, result):
        return same(result, [self._plan_enumerator, self._cost_model, self._card_est])


Stage = Ref("PlStage", [f"{ST}:OptimizationStage"], eq="term", opaque=True, truthy=True, attrs=A)
Pipe = Ref("PlPipe", [f"{PL}:OptimizationPipeline"], eq="term", opaque=True, gen=_g("any_pipeline"))


class Stages(Contract):
    target = f"{PL}:OptimizationPipeline.stages"
    props = P
    params = {"self": Pipe}
    returns = Seq(Stage)
    trusted = True
    note = "the stages of an arbitrary pipeline"


class FitDb(Contract):
    target = f"{ST}:OptimizationStage.fit_database"
    props = P
    params = {"self": Stage, "database": Db}
    returns = Any
    trusted = True
    note = "the training of an arbitrary stage is a function of its inputs"


class FitWorkload(Contract):
    target = f"{ST}:OptimizationStage.fit_workload"
    props = P
    params = {"self": Stage, "queries": Any, "database": Db}
    returns = Any
    trusted = True
    note = FitDb.note


Samples = Ref("PlSamples", [f"{TR}:TrainingData"], eq="term", opaque=True, gen=_g("samples"), truthy=True)
Repo = Ref("PlRepository", [f"{TR}:TrainingDataRepository"], eq="term", opaque=True, gen=_g("sample_repository"), truthy=True)


class Retrieve(Contract):
    target = f"{TR}:TrainingDataRepository.retrieve_merged"
    props = P
    params = {"self": Repo, "spec": Any}
    returns = Opt(Samples)
    trusted = True
    note = "looking up training data is the subject of C21"


class FitSamples(Contract):
    target = f"{ST}:OptimizationStage.fit_samples"
    props = P
    params = {"self": Stage, "samples": Samples}
    returns = Any
    trusted = True
    note = FitDb.note


class Feedback(Contract):
    target = f"{ST}:OptimizationStage.learn_from_feedback"
    props = P
    params = {"self": Stage, "query": Query, "result_set": Any, "exec_time": Flt}
    returns = Any
    trusted = True
    note = FitDb.note


class TrainDb(Contract):
    """exactly the stages that learn from the database and have not done so yet are trained"""
    target = f"{PL}:OptimizationPipeline.train_on_database"
    props = P
    params = {"self": Pipe, "database": Db}
    returns = None
    gens = {"database": _g("pipeline_db")}

    def ensures(self, database, result):
        return same(result, {s.name: s.fit_database(database) for s in self.stages() if s.requires_data_training() and not s.database_fit_completed()})


class TrainWorkload(Contract):
    target = f"{PL}:OptimizationPipeline.train_on_workload"
    props = P
    params = {"self": Pipe, "workload": Any, "database": Db}
    returns = None
    gens = {"database": _g("pipeline_db"), "workload": lambda rng, size: rng.choice(["w1", "w2"])}

    def ensures(self, workload, database, result):
        return same(result, {s.name: s.fit_workload(workload, database) for s in self.stages()
                             if s.requires_workload_training() and not s.workload_fit_completed()})


class TrainSamples(Contract):
    """training samples reach exactly the stages that still need them"""
    target = f"{PL}:OptimizationPipeline.train_on_samples"
    props = P
    params = {"self": Pipe, "samples": Samples}
    returns = None

    def ensures(self, samples, result):
        return same(result, {s.name: s.fit_samples(samples) for s in self.stages() if s.requires_sample_training() and not s.sample_fit_completed()})


class TrainRepository(Contract):
    """stages are trained on the data that matches their specification; missing data is an error"""
    target = f"{PL}:OptimizationPipeline.train_on_samples"
    props = P
    params = {"self": Pipe, "samples": Repo}
    returns = None
    raises = {"ValueError": "missing"}

    def missing(self, samples):
        return exists(self.stages(), lambda s: s.requires_sample_training() and not s.sample_fit_completed() and samples.retrieve_merged(s.sample_spec()) is None)

    def ensures(self, samples, result):
        return same(result, {s.name: s.fit_samples(samples.retrieve_merged(s.sample_spec())) for s in self.stages()
                             if s.requires_sample_training() and not s.sample_fit_completed()})


class LearnFeedback(Contract):
    target = f"{PL}:OptimizationPipeline.learn_from_feedback"
    props = P
    params = {"self": Pipe, "query": Query, "result_set": Any, "exec_time": Flt}
    returns = None
    gens = {"result_set": lambda rng, size: rng.choice(["r1", [(1,)]])}

    def ensures(self, query, result_set, exec_time, result):
        return same(result, {s.name: s.learn_from_feedback(query, result_set, exec_time=exec_time) for s in self.stages() if s.uses_online_feedback()})


class NeedsDb(Contract):
    target = f"{PL}:OptimizationPipeline.requires_data_training"
    props = P
    params = {"self": Pipe}
    returns = Bool

    def ensures(self, result):
        return result == exists(self.stages(), lambda s: s.requires_data_training())


class NeedsWorkload(Contract):
    target = f"{PL}:OptimizationPipeline.requires_workload_training"
    props = P
    params = {"self": Pipe}
    returns = Bool

    def ensures(self, result):
        return result == exists(self.stages(), lambda s: s.requires_workload_training())


class NeedsSamples(Contract):
    target = f"{PL}:OptimizationPipeline.requires_sample_training"
    props = P
    params = {"self": Pipe}
    returns = Bool

    def ensures(self, result):
        return result == exists(self.stages(), lambda s: s.requires_sample_training())


class NeedsFeedback(Contract):
    target = f"{PL}:OptimizationPipeline.requires_online_training"
    props = P
    params = {"self": Pipe}
    returns = Bool

    def ensures(self, result):
        return result == exists(self.stages(), lambda s: s.uses_online_feedback())


class SamplesDone(Contract):
    """no stage that needs samples is without them"""
    target = f"{PL}:OptimizationPipeline.sample_fit_completed"
    props = P
    params = {"self": Pipe}
    returns = Bool

    def ensures(self, result):
        return result == forall(self.stages(), lambda s: not s.requires_sample_training() or s.sample_fit_completed())


# ---- single stages as complete algorithms -------------------------------------------------------------------------------

Emulated = Obj("Emulated", f"{ST}:_CompleteAlgorithmEmulator", {"name": Str, "database": Db, "_join_order_optimizer": Opt(JoinStage),
               "_operator_selection": Opt(OpStage), "_plan_parameterization": Opt(ParStage)}, gen=_g("emulated"))


class EmulatedRun(Contract):
    """the database system completes the decisions of the stage"""
    target = f"{ST}:_CompleteAlgorithmEmulator.optimize_query"
    props = P
    params = {"self": Emulated, "query": Query}
    returns = Plan

    def ensures(self, query, result):
        j = self._join_order_optimizer.optimize_join_order(query) if self._join_order_optimizer is not None else None
        o = self._operator_selection.select_physical_operators(query, None) if self._operator_selection is not None else None
        p = self._plan_parameterization.generate_plan_parameters(query, None, None) if self._plan_parameterization is not None else None
        return same(result, self.database.optimizer().query_plan(
            self.database.hinting().generate_hints(query, join_order=j, physical_operators=o, plan_parameters=p)))


class EmulatedJoin(Contract):
    """exactly the given stage is used"""
    target = f"{ST}:as_complete_algorithm"
    props = P
    params = {"stage": JoinStage, "database": Db}
    returns = None

    def ensures(stage, database, result):
        return same(result.stage(), stage) and same(result.database, database) and result._operator_selection is None \
            and result._plan_parameterization is None and same(result.pre_check(), stage.pre_check())


class EmulatedOps(Contract):
    target = f"{ST}:as_complete_algorithm"
    props = P
    params = {"stage": OpStage, "database": Db}
    returns = None

    def ensures(stage, database, result):
        return same(result.stage(), stage) and same(result.database, database) and result._join_order_optimizer is None \
            and result._plan_parameterization is None and same(result.pre_check(), stage.pre_check())


class EmulatedParams(Contract):
    target = f"{ST}:as_complete_algorithm"
    props = P
    params = {"stage": ParStage, "database": Db}
    returns = None

    def ensures(stage, database, result):
        return same(result.stage(), stage) and same(result.database, database) and result._join_order_optimizer is None \
            and result._operator_selection is None and same(result.pre_check(), stage.pre_check())


# ---- whole pipelines ----------------------------------------------------------------------------------------------------

use("postbound._hints", "PhysicalOperatorAssignment", "PlanParameterization")


class MultiStageRun(Contract):
    """missing stages decide nothing; an estimator is prepared for the query before it is used, and only as long as it is used"""
    target = f"{PL}:MultiStageOptimizationPipeline.optimize_query"
    props = P
    params = {"self": Multi, "query": Query}
    gens = {"self": _g("pipeline", "lmulti", build=True)}
    raises = {"StateError": "not_built", "UnsupportedQueryError": "unsupported"}
    bounded = True
    note = "the state of estimators is not part of the values of stages"

    def not_built(self):
        return not self._build

    def unsupported(self, query):
        return self._build and not query_ok(self._support_check, query)

    def ensures(self, query, result):
        j = self._join_order_enumerator.optimize_join_order(query) if self._join_order_enumerator is not None else None
        o = self._physical_operator_selection.select_physical_operators(query, j) if self._physical_operator_selection is not None else PhysicalOperatorAssignment()
        got_q, got_j, got_o, got_p = result.payload[1], result.payload[3], result.payload[4], result.payload[5]
        est = self._plan_parameterization
        if est is None:
            p_ok = not got_p.cardinalities and not got_p.parallel_workers and not got_p.system_settings
        elif not hasattr(est, "target_db"):
            p_ok = got_p == est.generate_plan_parameters(query, j, o)
        else:
            p_ok = got_p.payload[2:5] == (query, j, o) and got_p.payload[5] is query and got_p.payload[6] is self._target_db \
                and est.query is None and est.target_db is None
        return got_q is query and same(got_j, j) and same(got_o, o) and p_ok


class EmulatedLifecycle(Contract):
    """estimators are prepared for the query"""
    target = f"{ST}:_CompleteAlgorithmEmulator.optimize_query"
    props = P
    params = {"self": Emulated, "query": Query}
    gens = {"self": _g("emulated", "lcard")}
    bounded = True
    note = MultiStageRun.note

    def ensures(self, query, result):
        got = result.payload[1].payload[5]
        est = self._plan_parameterization
        return got.payload[2:5] == (query, None, None) and got.payload[5] is query and got.payload[6] is self.database and est.query is None \
            and est.target_db is None


class SupportedQueries(Lemma):
    """after a successful build, exactly the queries that pass the checks of the current stages are optimized - no matter which stages were used before"""
    props = P
    params = {"p": Multi, "q": Query, "stages": Any}
    gens = {"stages": lambda rng, size: _stages(rng), "p": _g("pipeline", "multi", build=False), "q": _g("query")}
    bounded = True
    note = "histories of at most four configuration steps"

    def lemma(p, q, stages):
        for s in stages:
            if s == "build":
                try:
                    p.build()
                except Exception:
                    pass
            elif hasattr(s, "check_supported_query"):
                p.setup_query_support_check(s)
            else:
                p.use(s)
        current = present([p.join_order_enumerator, p.physical_operator_selection, p.plan_parameterization])
        checks = [s.pre_check() for s in current] + ([p.pre_check] if p.pre_check is not None else [])
        try:
            p.build()
            built = True
        except Exception as e:
            built = False
            assert type(e).__name__ == "UnsupportedSystemError"
        assert built == all(db_ok(c, p.target_db) for c in checks)
        if not built:
            return True
        try:
            p.optimize_query(q)
            done = True
        except Exception as e:
            done = False
            assert type(e).__name__ == "UnsupportedQueryError"
        return done == all(query_ok(c, q) for c in checks)


def _stages(rng):
    from contracts import gens
    return [rng.choice(["build", gens.stage(rng, "join"), gens.stage(rng, "ops"), gens.stage(rng, "params"), gens.stage(rng, "card"), gens.precheck(rng)])
            for _ in range(rng.randint(0, 4))]


# ---- settings and defaults ----------------------------------------------------------------------------------------------

Settings = Ref("PlSettings", [f"{PL}:OptimizationSettings"], eq="term", opaque=True, gen=_g("settings"), attrs={
    "query_pre_check()": Opt(Check), "build_join_order_optimizer()": Opt(JoinStage), "build_physical_operator_selection()": Opt(OpStage),
    "build_plan_parameterization()": Opt(ParStage)})


class MultiLoadSettings(Contract):
    """loading settings replaces exactly the stages (and the check) the settings provide, and requires a new build"""
    target = f"{PL}:MultiStageOptimizationPipeline.load_settings"
    props = P
    params = {"self": Multi, "optimization_settings": Settings}
    modifies = ["self._pre_check", "self._join_order_enumerator", "self._physical_operator_selection", "self._plan_parameterization", "self._build"]
    returns = "self"

    def ensures_check(self, old_self, optimization_settings):
        c = optimization_settings.query_pre_check()
        return same(self.pre_check, c if c is not None else old_self.pre_check)

    def ensures_join(self, old_self, optimization_settings):
        s = optimization_settings.build_join_order_optimizer()
        return same(self.join_order_enumerator, s if s is not None else old_self.join_order_enumerator)

    def ensures_operators(self, old_self, optimization_settings):
        s = optimization_settings.build_physical_operator_selection()
        return same(self.physical_operator_selection, s if s is not None else old_self.physical_operator_selection)

    def ensures_parameters(self, old_self, optimization_settings):
        s = optimization_settings.build_plan_parameterization()
        return same(self.plan_parameterization, s if s is not None else old_self.plan_parameterization)

    def ensures_unbuilt(self, optimization_settings):
        return not self._build


class UnknownComponents(Lemma):
    """components a pipeline cannot use are rejected and leave the pipeline as it is"""
    props = P
    params = {"p": Pipe, "kind": Any}
    gens = {"kind": lambda rng, size: _stranger(rng)}
    bounded = True

    def lemma(p, kind):
        usable = {"IntegratedOptimizationPipeline": ["complete"], "MultiStageOptimizationPipeline": ["join", "ops", "params", "card"],
                  "TextBookOptimizationPipeline": ["card", "cost", "enum"], "IncrementalOptimizationPipeline": ["complete", "step"]}[type(p).__name__]
        before = list(p.stages())
        if kind[0] in usable or type(p).__name__ == "IntegratedOptimizationPipeline":
            return True
        try:
            p.use(kind[1])
            return False
        except TypeError:
            return list(p.stages()) == before


class StageDefaults(Lemma):
    """a stage needs exactly the kinds of training it implements, refuses all others and supports everything unless it says otherwise"""
    props = P
    params = {"kind": Any, "overridden": Any, "q": Query, "d": Db}
    gens = {"kind": lambda rng, size: rng.choice(["join", "ops", "params", "cost", "enum", "complete", "step"]),
            "overridden": lambda rng, size: sorted(rng.sample(_TRAINING, rng.choice([0, 0, 1, 2, 3, 4, len(_TRAINING)])))}
    bounded = True
    note = "the training methods of one stage"

    def lemma(kind, overridden, q, d):
        from contracts import gens
        cls = gens.bare_stage(kind, {m: (lambda self, *a, _m=m, **k: ("called", _m)) for m in overridden})
        groups = [_TRAINING[0:2], _TRAINING[2:4], _TRAINING[4:7]]
        partial = any(0 < len([m for m in g if m in overridden]) < len(g) for g in groups)
        try:
            stage = cls()
        except NotImplementedError:
            return partial
        assert not partial
        assert stage.name == cls.__name__ and stage.describe() == {"name": stage.name}
        assert stage.pre_check() is None or (query_ok(stage.pre_check(), q) and db_ok(stage.pre_check(), d))
        assert cls.requires_data_training() == ("fit_database" in overridden) and cls.requires_workload_training() == ("fit_workload" in overridden)
        assert cls.requires_sample_training() == ("fit_samples" in overridden) and cls.uses_online_feedback() == ("learn_from_feedback" in overridden)
        arguments = {"fit_database": (d,), "fit_workload": (None, d), "fit_samples": (None,), "learn_from_feedback": (q, None)}
        for m in _TRAINING:
            try:
                outcome = getattr(stage, m)(*arguments.get(m, ()), **({"exec_time": 1.0} if m == "learn_from_feedback" else {}))
                if m not in overridden or outcome != ("called", m):
                    return False
            except NotImplementedError:
                if m in overridden:
                    return False
        return True


_TRAINING = ["fit_database", "database_fit_completed", "fit_workload", "workload_fit_completed", "fit_samples", "sample_fit_completed", "sample_spec", "learn_from_feedback"]


def _stranger(rng):
    from contracts import gens
    k = rng.choice(["join", "ops", "params", "cost", "enum", "complete", "step", "check", "none"])
    return (k, gens.precheck(rng, 1) if k == "check" else None if k == "none" else gens.stage(rng, k))


class FreshPipelines(Lemma):
    """a new multi-stage pipeline has no stages, refuses to optimize before it is built, and then only passes the query on to the hinting service; a new
    text book pipeline has a full set of stages"""
    props = P
    params = {"d": Db, "q": Query}
    bounded = True

    def lemma(d, q):
        m, t, i = MultiStageOptimizationPipeline(d), TextBookOptimizationPipeline(d), IncrementalOptimizationPipeline(d)
        for p in [m, t]:
            try:
                p.optimize_query(q)
                return False
            except Exception as e:
                assert type(e).__name__ == "StateError"
        assert m.build() is m and m.target_database() is d and t.target_database() is d and i.target_database() is d
        _, query, plan, join_order, operators, parameters = m.optimize_query(q).payload
        assert query is q and plan is None and not join_order and str(operators) == str(PhysicalOperatorAssignment()) and str(parameters) == str(PlanParameterization())
        assert m.stages() == [] and i.stages() == [] and len(t.stages()) == 3
        kinds = [PlanEnumerator, CostModel, CardinalityEstimator]
        return all(isinstance(s, k) for s, k in zip(t.stages(), kinds)) and same(i.query_execution_plan(q), d.optimizer().query_plan(q))
