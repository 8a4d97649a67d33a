"""C22: workloads (compared with a dictionary of labels and queries)."""
from pydv.api import *

W = "postbound.workloads"
P = ("C22",)
TEXTS = ("SELECT * FROM a", "SELECT * FROM a WHERE a.x = 1", "SELECT count(*) FROM a, b WHERE a.id = b.id",
         "SELECT a.x FROM a, b WHERE a.id = b.id AND b.y < 10", "SELECT * FROM c WHERE c.z IN (1, 2)", "SELECT min(c.z) FROM c",
         "SELECT b.y FROM b ORDER BY b.y", "SELECT * FROM c WHERE c.name = 'R\u00f6\u00e9'")
LABELS = ("q1", "q2", "q10", "q1a", "q1b", "q11", "a", "b2", "b10", "2c", "10a", "q1.1", "q1.2")
BAD = "this is not a query"
_parsed = {}


def parsed(text):
    from postbound import parser
    if text not in _parsed:
        _parsed[text] = parser.parse_query(text, bind_columns=False)
    return _parsed[text]


def labels_for(rng, numeric, n):
    pool = list(range(1, 15)) if numeric else list(LABELS)
    rng.shuffle(pool)
    return pool[:n]


def workload(rng, numeric=None, distinct=None):
    """a workload with some queries, it is shuffled from time to time"""
    from postbound.workloads import Workload
    numeric = rng.random() < 0.3 if numeric is None else numeric
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    texts = rng.sample(TEXTS, n) if distinct or rng.random() < 0.6 else [rng.choice(TEXTS) for _ in range(n)]
    w = Workload(dict(zip(labels_for(rng, numeric, n), map(parsed, texts))), name=rng.choice(["", "bench"]))
    if rng.random() < 0.4:
        w = w.shuffle()
    return w


def natural(label):
    """the natural order of labels: numbers are compared by value"""
    if not isinstance(label, str):
        return label
    parts, text, number = [], "", ""
    for c in label:
        if c.isdigit():
            if not number:
                parts.append(text)
                text = ""
            number += c
        else:
            if number:
                parts.append(int(number))
                number = ""
            text += c
    parts.append(int(number) if number else text)
    return parts


def data(w):
    return {label: w[label] for label in w}


def consistent(w):
    """all ways to look at the workload agree"""
    d, labels = data(w), list(w.labels())
    return (sorted(labels, key=natural) == sorted(d, key=natural) and len(w) == len(d) == len(labels) and list(w.queries()) == [d[x] for x in labels]
            and list(w.entries()) == [(x, d[x]) for x in labels] and w.head() == ((labels[0], d[labels[0]]) if labels else None)
            and all(d[w.label_of(q)] == q for q in d.values()))


def is_new(w, expected, name):
    """the workload consists of the expected queries, in natural order"""
    return consistent(w) and data(w) == expected and list(w.labels()) == sorted(expected, key=natural) and w.name == name


class New(Contract):
    """a workload consists of the queries, in the natural order of their labels"""
    target = f"{W}:Workload.__init__"
    props = P
    params = {"self": Any, "queries": Any, "name": Any}
    modifies = ["self"]
    bounded = True
    note = "bounded: at most 6 queries"

    def gen(rng, size):
        from postbound.workloads import Workload
        n = rng.choice([0, 1, 2, 4, 8])
        return {"self": object.__new__(Workload), "queries": {x: parsed(rng.choice(TEXTS)) for x in labels_for(rng, rng.random() < 0.4, n)}, "name": rng.choice(["", "bench"])}

    def ensures_state(self, queries, name):
        return is_new(self, queries, name)


class Op(Contract):
    """the state of the workload itself never changes"""
    abstract = True
    props = P
    params = {"self": Any}
    bounded = True
    weight = 0.7
    note = "bounded: at most 6 queries"

    def requires_consistent(self):
        return consistent(self)

    def ensures_unchanged(self, old_self):
        return data(self) == data(old_self) and list(self.labels()) == list(old_self.labels()) and consistent(self)


class LabelOf(Op):
    target = f"{W}:Workload.label_of"
    params = {**Op.params, "query": Any}
    raises = {"KeyError": "unknown"}

    def gen(rng, size):
        return {"self": workload(rng), "query": parsed(rng.choice(TEXTS))}

    def unknown(self, query):
        return query not in data(self).values()

    def ensures_label(self, query, result):
        return self[result] == query


class Some(Op):
    """the number of queries to select"""
    abstract = True
    params = {**Op.params, "n": Any}

    def gen(rng, size):
        return {"self": workload(rng), "n": rng.choice([0, 1, 2, 3, 8])}


class First(Some):
    target = f"{W}:Workload.first"
    params = {**Some.params}

    def ensures_first(self, n, result):
        return is_new(result, {x: q for i, (x, q) in enumerate(self.entries()) if i < n}, self.name)


class Last(Some):
    target = f"{W}:Workload.last"
    params = {**Some.params}

    def ensures_last(self, n, result):
        return is_new(result, {x: q for i, (x, q) in enumerate(self.entries()) if i >= len(self) - n}, self.name)


class PickRandom(Some):
    target = f"{W}:Workload.pick_random"
    params = {**Some.params}

    def ensures_picked(self, n, result):
        return is_new(result, {x: self[x] for x in result}, self.name) and len(result) == min(n, len(self))


class WithLabels(Op):
    target = f"{W}:Workload.with_labels"
    params = {**Op.params, "labels": Any}

    def gen(rng, size):
        w = workload(rng)
        pool = list(w) + ["zz", 99]
        return {"self": w, "labels": rng.sample(pool, rng.randrange(len(pool) + 1))}

    def ensures_selected(self, labels, result):
        return is_new(result, {x: q for x, q in data(self).items() if x in labels}, self.name)


class WithPrefix(Op):
    target = f"{W}:Workload.with_prefix"
    params = {**Op.params, "label_prefix": Any}
    raises = {"ValueError": "no_prefix"}

    def gen(rng, size):
        return {"self": workload(rng, numeric=False), "label_prefix": rng.choice(["", "q", "q1", "b", "1", "x", 1])}

    def no_prefix(self, label_prefix):
        return not isinstance(label_prefix, str)

    def ensures_selected(self, label_prefix, result):
        return is_new(result, {x: q for x, q in data(self).items() if x[:len(label_prefix)] == label_prefix}, self.name)


class FilterBy(Op):
    target = f"{W}:Workload.filter_by"
    params = {**Op.params, "predicate": Any}

    def gen(rng, size):
        k = rng.randrange(3)
        return {"self": workload(rng), "predicate": [lambda x, q: len(q.tables()) == 1, lambda x, q: str(x) < "q1a", lambda x, q: len(q.tables()) if len(str(x)) == 2 else ""][k]}

    def ensures_selected(self, predicate, result):
        return is_new(result, {x: q for x, q in data(self).items() if predicate(x, q)}, self.name)


class Relabel(Op):
    target = f"{W}:Workload.relabel"
    params = {**Op.params, "label_provider": Any}

    def gen(rng, size):
        return {"self": workload(rng), "label_provider": rng.choice([lambda x, q: f"job{x}", lambda x, q: f"{len(q.tables())}-{x}"])}

    def ensures_relabelled(self, label_provider, result):
        return is_new(result, {label_provider(x, q): q for x, q in data(self).items()}, self.name)


def more(rng):
    """further arguments of a transformation"""
    v = rng.random() < 0.6
    return rng.choice([{"args": (), "kwargs": {}}, {"args": (v,), "kwargs": {}}, {"args": (), "kwargs": {"analyze": v}}])


def explain(query, analyze=False):
    from postbound import parser
    return parser.parse_query(f"EXPLAIN {'ANALYZE ' if analyze else ''}{query}", bind_columns=False)


class MapQueries(Op):
    target = f"{W}:Workload.map"
    params = {**Op.params, "transformation": Any, "args": Any, "kwargs": Any}

    def gen(rng, size):
        return {"self": workload(rng), "transformation": explain, **more(rng)}

    def ensures_mapped(self, transformation, args, kwargs, result):
        return is_new(result, {x: transformation(q, *args, **kwargs) for x, q in data(self).items()}, self.name)


class Transform(Op):
    target = f"{W}:Workload.transform"
    params = {**Op.params, "transformation": Any, "args": Any, "kwargs": Any}

    def gen(rng, size):
        return {"self": workload(rng), "transformation": lambda x, q, analyze=None: (f"t{x}", explain(q, analyze)), **more(rng)}

    def ensures_mapped(self, transformation, args, kwargs, result):
        return is_new(result, dict(transformation(x, q, *args, **kwargs) for x, q in data(self).items()), self.name)


class Shuffle(Op):
    """the same queries in an arbitrary order"""
    target = f"{W}:Workload.shuffle"
    params = {**Op.params}

    def gen(rng, size):
        return {"self": workload(rng)}

    def ensures_same(self, result):
        return consistent(result) and data(result) == data(self) and result.name == self.name


class Ordered(Op):
    """the same queries in their natural order"""
    target = f"{W}:Workload.ordered"
    params = {**Op.params}

    def gen(rng, size):
        return {"self": workload(rng)}

    def ensures_same(self, result):
        return is_new(result, data(self), self.name)


class Binary(Op):
    abstract = True
    params = {**Op.params, "other": Any}
    raises = {"TypeError": "not_a_workload"}

    def not_a_workload(self, other):
        return isinstance(other, int)


def _two(only=False):
    def g(rng, size):
        numeric = rng.random() < 0.3
        w, x = workload(rng, numeric), workload(rng, numeric)
        return {"self": w, "other": x if only else rng.choice([x, x, list(x), set(x), iter(list(x)), 1])}
    return g


def keys(other):
    return set(other)


class Add(Binary):
    """the queries of both workloads, those of the first one have precedence"""
    target = f"{W}:Workload.__add__"
    params = {**Binary.params}

    def gen(rng, size):
        numeric = rng.random() < 0.3
        return {"self": workload(rng, numeric), "other": rng.choice([workload(rng, numeric), workload(rng, numeric), 1])}

    def ensures_union(self, other, result):
        return is_new(result, {**data(other), **data(self)}, self.name)


class Sub(Binary):
    """the queries whose labels are not in the other collection"""
    target = f"{W}:Workload.__sub__"
    params = {**Binary.params}

    def gen(rng, size):
        numeric = rng.random() < 0.3
        x = workload(rng, numeric)
        return {"self": workload(rng, numeric), "other": rng.choice([x, x, list(x), set(x), 1])}

    def ensures_difference(self, other, result):
        return is_new(result, {x: q for x, q in data(self).items() if x not in set(other)}, self.name)


class And(Binary):
    """the queries whose labels are in the other collection, too"""
    target = f"{W}:Workload.__and__"
    params = {**Binary.params}
    gen = Sub.gen

    def ensures_intersection(self, other, result):
        return is_new(result, {x: q for x, q in data(self).items() if x in set(other)}, self.name)


class Or(Op):
    """the queries of both workloads (or a dictionary), those of the first one have precedence"""
    target = f"{W}:Workload.__or__"
    params = {**Op.params, "other": Any}

    def gen(rng, size):
        numeric = rng.random() < 0.3
        x = workload(rng, numeric)
        return {"self": workload(rng, numeric), "other": rng.choice([x, data(x)])}

    def ensures_union(self, other, result):
        return is_new(result, {**{x: other[x] for x in other}, **data(self)}, self.name)


class Generate(Contract):
    """no query is lost, labels are the given ones or the positions of the queries"""
    target = f"{W}:generate_workload"
    props = P
    params = {"queries": Any, "name": Any, "labels": Any, "workload_root": Any}
    bounded = True
    note = "bounded: at most 7 queries"

    def gen(rng, size):
        n = rng.choice([0, 1, 2, 3, 5, 7])
        labels = None
        if rng.random() < 0.3:
            queries = [parsed(x) for x in rng.sample(TEXTS, n)]
            labels = dict(zip(queries, labels_for(rng, False, n)))
        else:
            queries = [parsed(rng.choice(TEXTS)) for _ in range(n)]
        return {"queries": queries, "name": rng.choice(["", "bench"]), "labels": labels, "workload_root": rng.choice([None, "/data/job.sql", "ssb"])}

    def ensures_all(queries, name, labels, workload_root, result):
        expected = {labels[q]: q for q in queries} if labels else {i + 1: q for i, q in enumerate(queries)}
        return is_new(result, expected, name or {None: "", "/data/job.sql": "job", "ssb": "ssb"}[workload_root])


_scratch = []


def scratch():
    """an empty directory, it is removed when the next one is needed and at the end"""
    import tempfile
    if _scratch:
        _scratch.pop().cleanup()
    _scratch.append(tempfile.TemporaryDirectory(prefix="c22-"))
    return _scratch[-1].name


def write(root, path, text, encoding="utf-8"):
    import os
    full = os.path.join(root, path)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "w", encoding=encoding) as f:
        f.write(text)


def files_of(root, recurse, encoding, pattern):
    """path (without extension) -> contents of all matching files"""
    import os
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for f in files:
            if f.endswith(pattern[1:]) and (recurse or rel == "."):
                with open(os.path.join(base, f), encoding=encoding) as h:
                    out[f[:-4] if rel == "." else f"{rel}/{f[:-4]}"] = h.read()
    return out


def query_files(rng, dirs, bad, encoding, pattern):
    root = scratch()
    for d in dirs:
        for label in labels_for(rng, False, rng.randrange(4)):
            write(root, f"{d}{label}{pattern[1:]}", BAD if rng.random() < bad else rng.choice(TEXTS).replace(" FROM", "\nFROM") + rng.choice(["", "\n", ";\n"]), encoding)
        if rng.random() < 0.3:
            write(root, f"{d}readme.md", BAD)
    return root


def expected_queries(files, prefix, on_error):
    return {prefix + x: parsed(t.strip().rstrip(";").replace("\n", " ")) for x, t in files.items() if t != BAD}


class ReadFiles(Contract):
    """one query per file; files that cannot be parsed are left out if this is requested"""
    abstract = True
    props = P
    params = {"on_error": Any, "name": Any, "file_encoding": Any, "query_file_pattern": Any}
    bounded = True
    weight = 0.5
    note = "bounded: at most 3 files per directory"


def how(rng):
    return rng.choice(["utf-8", "latin-1", "utf-16"]), rng.choice(["*.sql", "*.sql", "*.txt"])


class ReadFlat(ReadFiles):
    target = f"{W}:Workload.read"
    params = {"root_dir": Any, **ReadFiles.params, "label_prefix": Any}
    raises = {"ValueError": "broken"}

    def gen(rng, size):
        encoding, pattern = how(rng)
        return {"root_dir": query_files(rng, ["", "sub/"], rng.choice([0.0, 0.3]), encoding, pattern), "file_encoding": encoding, "query_file_pattern": pattern, "on_error": rng.choice(["raise", "warn", "ignore"]), "name": rng.choice(["", "bench"]), "label_prefix": rng.choice(["", "x-"])}

    def broken(root_dir, on_error, file_encoding, query_file_pattern):
        return on_error == "raise" and BAD in files_of(root_dir, False, file_encoding, query_file_pattern).values()

    def ensures_queries(root_dir, name, label_prefix, on_error, file_encoding, query_file_pattern, result):
        return is_new(result, expected_queries(files_of(root_dir, False, file_encoding, query_file_pattern), label_prefix, on_error), name)


class ReadTree(ReadFiles):
    target = f"{W}:read_workload"
    params = {"path": Any, **ReadFiles.params, "recurse_subdirectories": Any, "query_label_prefix": Any}
    raises = {"ValueError": "broken"}

    def gen(rng, size):
        encoding, pattern = how(rng)
        return {"path": query_files(rng, ["", "sub/", "v1.5/", "v1.6/", "sub/deep/"][:rng.choice([1, 2, 4, 5])], rng.choice([0.0, 0.3]), encoding, pattern), "file_encoding": encoding, "query_file_pattern": pattern, "on_error": rng.choice(["raise", "warn", "ignore"]),
                "name": rng.choice(["", "bench"]), "recurse_subdirectories": rng.random() < 0.7, "query_label_prefix": rng.choice(["", "x/"])}

    def broken(path, on_error, recurse_subdirectories, file_encoding, query_file_pattern):
        return on_error == "raise" and BAD in files_of(path, recurse_subdirectories, file_encoding, query_file_pattern).values()

    def ensures_queries(path, name, query_label_prefix, on_error, recurse_subdirectories, file_encoding, query_file_pattern, result):
        return is_new(result, expected_queries(files_of(path, recurse_subdirectories, file_encoding, query_file_pattern), query_label_prefix, on_error), name)


def stem(filename):
    return filename.split("/")[-1].split(".")[0]


class ReadBatch(Contract):
    """one query per line, empty lines are skipped"""
    target = f"{W}:read_batch_workload"
    props = P
    params = {"filename": Any, "name": Any, "file_encoding": Any}
    bounded = True
    weight = 0.5
    note = "bounded: at most 6 lines"

    def gen(rng, size):
        root = scratch()
        encoding, _ = how(rng)
        write(root, "batch.txt", "\n".join(rng.choice([*TEXTS, "", "  "]) for _ in range(rng.randrange(7))) + rng.choice(["", "\n"]), encoding)
        return {"filename": f"{root}/batch.txt", "file_encoding": encoding, "name": rng.choice(["", "bench"])}

    def ensures_queries(filename, name, file_encoding, result):
        with open(filename, encoding=file_encoding) as f:
            lines = [x.strip() for x in f.read().split("\n") if x.strip()]
        return is_new(result, {i + 1: parsed(x) for i, x in enumerate(lines)}, name or stem(filename))


class ReadCsv(Contract):
    """one query per row, with the given labels or the numbers of the rows"""
    target = f"{W}:read_csv_workload"
    props = P
    params = {"filename": Any, "name": Any, "query_column": Any, "label_column": Any, "file_encoding": Any, "pd_args": Any}
    bounded = True
    weight = 0.5
    note = "bounded: at most 6 rows"

    def gen(rng, size):
        import csv
        import io
        root = scratch()
        encoding, _ = how(rng)
        sep = rng.choice([",", ",", ";"])
        out = io.StringIO()
        w = csv.writer(out, delimiter=sep)
        w.writerow(["label", "other", "sql"])
        n = rng.randrange(1, 7)
        for label in labels_for(rng, False, n):
            w.writerow([label, rng.randrange(5), rng.choice(TEXTS)])
        write(root, "rows.csv", out.getvalue(), encoding)
        return {"file_encoding": encoding, "pd_args": None if sep == "," else {"sep": sep, "usecols": ["other"], "encoding": "ascii"}, "filename": f"{root}/rows.csv", "name": rng.choice(["", "bench"]), "query_column": "sql", "label_column": rng.choice([None, "label"])}

    def ensures_queries(filename, name, label_column, file_encoding, pd_args, result):
        import csv
        with open(filename, newline="", encoding=file_encoding) as f:
            rows = list(csv.DictReader(f, delimiter=pd_args["sep"] if pd_args else ","))
        expected = {r["label"] if label_column else i + 1: parsed(r["sql"]) for i, r in enumerate(rows)}
        return is_new(result, expected, name or stem(filename))


class InvertMulti(Contract):
    """for each value, exactly the keys whose lists contain it"""
    target = "postbound.util.dicts:invert_multi"
    props = P
    params = {"mapping": Any}
    bounded = True
    note = "bounded: at most 4 keys"

    def gen(rng, size):
        return {"mapping": {k: rng.sample([1, 2, 3], rng.randrange(3)) for k in rng.sample("abcd", rng.randrange(5))}}

    def ensures_pairs(mapping, result):
        return {(v, k) for v, ks in result.items() for k in ks} == {(v, k) for k, vs in mapping.items() for v in vs} and all(len(ks) == len(set(ks)) > 0 for ks in result.values())
