"""Grammar sections: each function builds one SQL query text from solver-enumerated shape choices (``ctx.choose``).

The catalog is r(a, b), s(a, c), t(b, d); literals stand for arbitrary values (see sqlsem.Db.literal).
"""
CATALOG = {"r": ["a", "b"], "s": ["a", "c"], "t": ["b", "d"], "sch.u": ["a", "e"], "u": ["a", "k"]}

# ------------------------------------------------------------------ expressions
LEAF = ["r.a", "7", "'x'", "1.5", "NULL", "TRUE"]
EXPR = {  # name -> (template, number of holes, default leaves)
    "add": ("{0} + {1}", "r.a", "3"), "sub": ("{0} - {1}", "r.a", "r.b"), "mul": ("{0} * {1}", "r.a", "r.b"),
    "div": ("{0} / {1}", "r.b", "2"), "mod": ("{0} % {1}", "r.b", "3"), "cat": ("{0} || {1}", "r.a", "'y'"),
    "neg": ("- {0}", "r.a"), "func1": ("abs({0})", "r.a"), "func2": ("nullable({0}, {1})", "r.a", "4"),
    "coalesce": ("coalesce({0}, {1})", "r.a", "r.b"), "cast": ("CAST({0} AS text)", "r.a"), "cast2": ("{0}::numeric(4, 2)", "r.a"),
    "casex": ("CASE WHEN {0} > 1 THEN {1} ELSE {2} END", "r.a", "r.b", "9"),
    "casey": ("CASE WHEN {0} > 1 THEN {1} END", "r.a", "r.b"),
    "case2": ("CASE WHEN r.a = 1 THEN {0} WHEN r.b = 2 THEN {1} ELSE NULL END", "5", "6"),
    "simplecase": ("CASE {0} WHEN {1} THEN {2} ELSE {3} END", "r.a", "1", "2", "3"),
    "array": ("ARRAY[{0}, {1}]", "r.a", "r.b"), "index": ("(ARRAY[r.a, r.b])[{0}]", "1"), "slice": ("(ARRAY[r.a, r.b])[{0}:{1}]", "1", "2"),
    "scalar": ("(SELECT max(s.c) FROM s WHERE s.a = {0})", "r.a"),
}


def fill(kind, holes):
    return EXPR[kind][0].format(*holes)


def expr1(ctx, name="e"):
    """leaf or one operator over default leaves"""
    k = ctx.pick(name, LEAF + list(EXPR))
    return k if k in LEAF else fill(k, EXPR[k][1:])


def paren(kind, text):
    return f"({text})" if kind in ("add", "sub", "mul", "div", "mod", "cat", "neg", "cast2") else text


def expr2(ctx, name="e"):
    """every operator with every operator in each of its argument positions"""
    k = ctx.pick(name, list(EXPR))
    holes = list(EXPR[k][1:])
    pos = ctx.choose(name + ".pos", len(holes))
    k2 = ctx.pick(name + ".in", LEAF + list(EXPR))
    holes[pos] = k2 if k2 in LEAF else paren(k2, fill(k2, EXPR[k2][1:]))
    return fill(k, holes)


ARITH = ["add", "sub", "mul", "div", "neg", "cat"]


def arith3(ctx, name="e"):
    """arithmetic trees of depth 3 along every spine, with and without redundant parentheses"""
    def go(d, n):
        if d == 0:
            return "r.a"
        k = ctx.pick(n, ARITH)
        holes = list(EXPR[k][1:])
        pos = ctx.choose(n + "p", len(holes))
        sub = go(d - 1, n + "x")
        holes[pos] = f"({sub})" if d > 1 else sub
        return fill(k, holes)
    return go(3, name)


def q_expr(ctx):
    x = expr2(ctx) if ctx.choose("deep", 2) else expr1(ctx)
    return f"SELECT {x} AS v FROM r"


def q_expr_place(ctx):
    """each operator in each clause which can hold an expression"""
    x = expr1(ctx)
    place = ctx.pick("place", [
        "SELECT r.b, {} FROM r", "SELECT r.b FROM r WHERE {} = r.b", "SELECT r.b FROM r WHERE r.a < {}",
        "SELECT r.b FROM r WHERE {} IN (1, r.b)", "SELECT r.b FROM r WHERE r.b IN ({}, 2)", "SELECT r.b FROM r WHERE {} BETWEEN 1 AND 4",
        "SELECT r.b FROM r WHERE r.b BETWEEN {} AND 5", "SELECT r.b FROM r WHERE r.b BETWEEN 0 AND {}", "SELECT r.b FROM r WHERE {} IS NULL",
        "SELECT r.b FROM r WHERE {} LIKE 'x%'", "SELECT r.b FROM r WHERE r.b NOT LIKE {}",
        "SELECT count(*) FROM r GROUP BY r.a, r.b, ({})", "SELECT r.b FROM r ORDER BY ({}) DESC", "SELECT sum({}) FROM r",
        "SELECT r.b FROM r GROUP BY r.a, r.b HAVING {} > 1", "SELECT r.b FROM r JOIN s ON s.a = {}",
        "SELECT count(DISTINCT {}) FROM r", "SELECT DISTINCT ON (({})) r.b FROM r ORDER BY ({}) ASC, r.b DESC",
        "SELECT sum(r.a) OVER (PARTITION BY {} ORDER BY r.b) FROM r"])
    if x in LEAF and x != "r.a" and any(k in place for k in ("GROUP BY r.a, r.b, (", "ORDER BY ({})", "DISTINCT ON")):
        x = f"r.a + {x}"  # bare literals are positions (or errors) in these clauses
    return place.replace("{}", x)


def q_arith(ctx):
    return f"SELECT {arith3(ctx)} AS v FROM r"


# ------------------------------------------------------------------ predicates
PRED = [
    "r.a = 1", "r.a <> 2", "r.a < 3", "r.a <= r.b", "r.a > 5", "r.a >= 6", "r.a != 2", "1 < r.a", "r.a LIKE 'x%'", "r.a NOT LIKE 'y'",
    "r.a ILIKE 'z'", "r.a NOT ILIKE 'w'", "r.a BETWEEN 1 AND 9", "r.b BETWEEN r.a AND 9", "r.a IN (1, 2)", "r.a IN (3)",
    "r.a NOT IN (1, 2)", "r.a IN (SELECT s.a FROM s)", "r.a NOT IN (SELECT s.c FROM s WHERE s.a = r.b)",
    "EXISTS (SELECT 1 FROM s WHERE s.a = r.a)", "NOT EXISTS (SELECT 1 FROM s WHERE s.a = r.a)", "r.a IS NULL", "r.a IS NOT NULL",
    "r.a = (SELECT min(s.a) FROM s)", "is_ok(r.a)", "r.a + 1 = r.b * 2", "r.a = r.b", "r.a = ANY (SELECT s.a FROM s)",
    "r.a < ALL (SELECT s.c FROM s)", "r.a >= SOME (SELECT s.c FROM s)", "r.a = ANY (ARRAY[1, 2])", "(r.a + r.b) < 4",
    "r.b IS DISTINCT FROM r.a", "TRUE",
]


def boolx(ctx, depth, name="p", leaves=("r.a = 1", "r.b < 2", "r.a IS NULL")):
    """boolean structure of the given depth over a few leaves"""
    n = ctx.counter = getattr(ctx, "counter", 0) + 1
    if depth == 0:
        return leaves[n % len(leaves)]
    k = ctx.pick(name, ["leaf", "NOT", "AND", "OR"])
    if k == "leaf":
        return leaves[n % len(leaves)]
    if k == "NOT":
        return f"NOT ({boolx(ctx, depth - 1, name + 'n', leaves)})"
    a, b = boolx(ctx, depth - 1, name + "l", leaves), boolx(ctx, depth - 1, name + "r", leaves)
    return f"({a}) {k} ({b})"


def q_pred(ctx):
    p = ctx.pick("p", PRED)
    w = ctx.pick("wrap", ["{}", "NOT ({})", "{} AND r.b = 8", "r.b = 8 AND {}", "{} OR r.b = 8", "r.b = 8 OR NOT ({})",
                          "(({}) OR r.b = 8) AND r.a > 0", "NOT (NOT ({}))", "{} AND r.b = 8 AND r.a = 0"])
    return f"SELECT r.a, r.b FROM r WHERE {w.format(p)}"


def q_pred_place(ctx):
    p = ctx.pick("p", PRED)
    w = ctx.pick("place", [
        "SELECT r.a FROM r JOIN s ON {}", "SELECT r.a FROM r LEFT JOIN s ON s.a = r.b AND {}",
        "SELECT r.a FROM r GROUP BY r.a, r.b HAVING {}", "SELECT CASE WHEN {} THEN 1 ELSE 2 END FROM r",
        "SELECT count(*) FILTER (WHERE {}) FROM r", "SELECT r.b FROM r WHERE EXISTS (SELECT 1 FROM s WHERE {} AND s.c = r.b)"])
    if "(SELECT" in p and ("count(" in w or "HAVING" in w):
        p = "r.a = 1"
    return w.format(p)


def q_bool(ctx, depth=2):
    """all AND/OR/NOT trees of depth 2"""
    return f"SELECT r.a, r.b FROM r WHERE {boolx(ctx, depth)}"


def q_bool3(ctx):
    """all AND/OR/NOT trees of depth 3"""
    return q_bool(ctx, 3)


def q_spine(ctx):
    """AND/OR/NOT spines of depth 4: one operand of every node is a leaf"""
    def go(d, n):
        if d == 0:
            return "r.a = 1"
        k = ctx.pick(n, ["NOT", "AND", "OR", "xAND", "xOR"])
        sub = go(d - 1, n + "x")
        leaf = ["r.b < 2", "r.a IS NULL", "r.b IN (1, 2)", "r.a > 7"][d - 1]
        if k == "NOT":
            return f"NOT ({sub})"
        return f"({sub}) {k[1:]} {leaf}" if k[0] == "x" else f"{leaf} {k} ({sub})"
    return f"SELECT r.a, r.b FROM r WHERE {go(4, 'p')}"


# ------------------------------------------------------------------ FROM
ITEM = {"r": ["r", "r AS x", "r x", "sch.u", "sch.u AS x", "(SELECT r.a, r.b FROM r) AS x", "(SELECT * FROM r WHERE r.a = 1) x",
              "(VALUES (1, 2), (3, 4)) AS x (a, b)", "generate_series(1, 3) AS x"]}


def ident_of(item):
    if item in ("r",):
        return "r"
    return "u" if item == "sch.u" else "x"


def q_from(ctx):
    i1 = ctx.pick("i1", ITEM["r"])
    id1 = ident_of(i1)
    col = "x" if "generate" in i1 else f"{id1}.a"
    k = ctx.pick("shape", ["single", "comma", "JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN",
                           "flip", "LATERAL", "left lateral"])
    sel = f"SELECT {col} AS v"
    if k == "single":
        return f"{sel} FROM {i1}"
    if k == "comma":
        return f"{sel}, s.c FROM {i1}, s WHERE {col} = s.a"
    if k == "CROSS JOIN":
        return f"{sel}, s.c FROM {i1} CROSS JOIN s"
    if k == "flip":
        return f"{sel}, s.c FROM s LEFT JOIN {i1} ON {col} = s.a AND s.c = 1 WHERE s.c > 3"
    if k == "LATERAL":
        return f"{sel}, y.m FROM {i1}, LATERAL (SELECT max(s.c) AS m FROM s WHERE s.a = {col}) AS y"
    if k == "left lateral":
        return f"{sel}, y.m FROM {i1} LEFT JOIN LATERAL (SELECT s.c AS m FROM s WHERE s.a = {col}) AS y ON y.m > 1"
    return f"{sel}, s.c FROM {i1} {k} s ON {col} = s.a WHERE s.c > 2"


JT = ["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"]


def q_join3(ctx):
    """all three-way join shapes"""
    j1, j2 = ctx.pick("j1", JT + ["CROSS JOIN"]), ctx.pick("j2", JT + ["CROSS JOIN"])
    on1 = "" if j1 == "CROSS JOIN" else " ON r.a = s.a"
    on2 = "" if j2 == "CROSS JOIN" else " ON s.c = t.d"
    shape = ctx.pick("shape", ["left", "right", "leftparen", "list", "list2"])
    if shape == "left":
        f = f"r {j1} s{on1} {j2} t{on2}"
    elif shape == "leftparen":
        f = f"(r {j1} s{on1}) {j2} t{on2}"
    elif shape == "right":
        f = f"r {j1} (s {j2} t{on2}){on1}"
    elif shape == "list":
        f = f"r {j1} s{on1}, t"
    else:
        f = f"t, r {j2} s{on1 or ' ON r.a = s.a' if j2 != 'CROSS JOIN' else ''}"
    w = ctx.pick("w", ["", " WHERE r.b = t.b"])
    return f"SELECT r.a, s.c, t.d FROM {f}{w}"


LEAFS = ["r AS {p}", "(SELECT r.a, r.b FROM r WHERE r.b = 1) AS {p}", "(VALUES (1, 2)) AS {p} (a, b)", "sch.u AS {p}",
         "(SELECT r.a FROM r UNION SELECT s.a FROM s) AS {p}", "LATERAL (SELECT s.a FROM s) AS {p}"]
SHAPES = ["((1 2) 3) 4", "(1 2) (3 4)", "1 (2 (3 4))", "1 ((2 3) 4)", "(1 (2 3)) 4", "1, (2 3) 4", "(1 2), (3 4)", "1 2, 3, 4"]


def q_join4(ctx):
    """join trees over four tables, one of them no plain table"""
    shape = ctx.pick("shape", SHAPES)
    where = ctx.choose("where", 4) + 1
    kind = ctx.pick("kind", LEAFS)
    lat = kind.startswith("LATERAL")
    types = ["JOIN", "LEFT JOIN"] if lat else [ctx.pick("t1", ["JOIN", "LEFT JOIN", "CROSS JOIN"]), ctx.pick("t2", ["JOIN", "FULL JOIN"])]
    types.append("JOIN")

    def parse(tokens):
        left = item(tokens)
        while tokens and tokens[0] not in (")", ","):
            right = item(tokens)
            j = types.pop(0)
            on = "" if j == "CROSS JOIN" else f" ON p{left[1]}.a = p{right[1]}.a"
            rt = f"({right[0]})" if right[2] else right[0]
            left = (f"{left[0]} {j} {rt}{on}", left[1], True)
        return left

    def item(tokens):
        t = tokens.pop(0)
        if t == "(":
            x = parse(tokens)
            tokens.pop(0)
            return x
        return ((kind if int(t) == where else "r AS {p}").replace("{p}", f"p{t}"), t, False)
    toks = [c for c in shape if c != " "]
    parts = []
    while toks:
        parts.append(parse(toks)[0])
        if toks:
            toks.pop(0)
    return f"SELECT p1.a AS a1, p2.a AS a2, p3.a AS a3, p4.a AS a4 FROM {', '.join(parts)} WHERE p1.a > p4.a"


# ------------------------------------------------------------------ clauses
def q_clauses(ctx):
    proj = ctx.pick("proj", ["r.a", "DISTINCT r.a", "DISTINCT ON (r.a) r.a, r.b", "*", "r.*", "r.a AS x, r.b AS y", "r.*, r.a AS z"])
    where = ctx.pick("where", ["", " WHERE r.b > 1"])
    order = ctx.pick("order", ["", " ORDER BY r.a", " ORDER BY r.a ASC", " ORDER BY r.a DESC, r.b", " ORDER BY r.a NULLS FIRST",
                               " ORDER BY r.a DESC NULLS LAST, r.b ASC NULLS LAST"])
    if "DISTINCT ON" in proj and not order:
        order = " ORDER BY r.a, r.b DESC"
    limit = ctx.pick("limit", ["", " LIMIT 1", " LIMIT 5 OFFSET 1", " OFFSET 1", " FETCH FIRST 1 ROWS ONLY", " LIMIT 0",
                               " OFFSET 1 ROWS FETCH NEXT 2 ROWS ONLY"])
    return f"SELECT {proj} FROM r{where}{order}{limit}"


AGGS = ["count(*)", "count(r.b)", "sum(r.b)", "min(r.b)", "max(r.b)", "avg(r.b)", "count(DISTINCT r.b)", "sum(r.b) FILTER (WHERE r.a > 1)",
        "count(*) FILTER (WHERE r.b IS NULL)", "sum(r.b + 1) * 2", "stddev(r.b)"]


def q_group(ctx):
    agg = ctx.pick("agg", AGGS)
    g = ctx.pick("group", ["", " GROUP BY r.a", " GROUP BY r.a, r.b", " GROUP BY r.a HAVING count(*) > 1",
                           " GROUP BY r.a HAVING sum(r.b) < 4 AND r.a = 1"])
    o = ctx.pick("order", ["", " ORDER BY {} DESC LIMIT 1"]) if g else ""
    if o and "FILTER" in agg:
        o = ""
    return f"SELECT {'r.a, ' if g else ''}{agg} FROM r WHERE r.b <> 3{g}{o.format(agg)}"


def q_window(ctx):
    f = ctx.pick("f", ["row_number()", "sum(r.a)", "rank()", "count(*)", "lag(r.a, 1)"])
    flt = ctx.pick("flt", ["", " FILTER (WHERE r.a > 1)"]) if f in ("sum(r.a)", "count(*)") else ""
    part = ctx.pick("part", ["", "PARTITION BY r.b", "PARTITION BY r.b, r.a"])
    order = ctx.pick("ord", ["", "ORDER BY r.a", "ORDER BY r.a DESC NULLS LAST, r.b"])
    return f"SELECT r.a, {f}{flt} OVER ({part}{' ' if part and order else ''}{order}) AS w FROM r"


CTES = {"plain": "WITH x AS (SELECT r.a AS z FROM r WHERE r.b = 1)",
        "mat": "WITH x AS MATERIALIZED (SELECT r.a AS z FROM r WHERE r.b = 1)",
        "notmat": "WITH x AS NOT MATERIALIZED (SELECT r.a AS z FROM r)",
        "two": "WITH x AS (SELECT r.a AS z FROM r), y AS (SELECT s.c AS w FROM s)",
        "chain": "WITH y AS (SELECT s.c AS w, s.a FROM s), x AS (SELECT y.w AS z FROM y WHERE y.a = 1)",
        "values": "WITH x (z, k) AS (VALUES (1, 2), (3, 4))",
        "vtwo": "WITH y (w, u) AS (VALUES (1, 2)), x (z, k) AS (VALUES (1, 2), (3, 4))",
        "mixed": "WITH x (z, k) AS (VALUES (1, 2), (3, 4)), y AS (SELECT s.c AS w FROM s)",
        "mixed2": "WITH y AS MATERIALIZED (SELECT s.c AS w FROM s), x (z, k) AS (VALUES (1, 2)), w AS NOT MATERIALIZED (SELECT t.d FROM t)",
        "rec": "WITH RECURSIVE x AS (SELECT r.a AS z FROM r UNION ALL SELECT x.z + 1 FROM x WHERE x.z < 3)",
        "set": "WITH x AS (SELECT r.a AS z FROM r UNION SELECT s.a FROM s)"}
BODIES = ["SELECT x.z FROM x", "SELECT p.z FROM x AS p", "SELECT r.a FROM r, x WHERE r.a = x.z", "SELECT r.a FROM r WHERE r.a IN (SELECT x.z FROM x)",
          "SELECT r.a FROM r JOIN x ON r.b = x.z ORDER BY r.a LIMIT 1", "SELECT * FROM x", "SELECT p.z, q.z FROM x AS p, x AS q WHERE p.z < q.z",
          "SELECT v.z FROM (SELECT x.z FROM x) AS v", "SELECT x.z FROM x UNION ALL SELECT s.a FROM s",
          "SELECT s.a FROM s INTERSECT SELECT x.z FROM x ORDER BY 1"]


def q_cte(ctx):
    return CTES[ctx.pick("cte", list(CTES))] + " " + ctx.pick("body", BODIES)


def q_set(ctx):
    ops = ["UNION", "UNION ALL", "INTERSECT", "EXCEPT"]
    op = ctx.pick("op", ops)
    A, B, C = "SELECT r.a FROM r", "SELECT s.a FROM s WHERE s.c = 1", "SELECT t.d FROM t"
    k = ctx.pick("k", ["two", "left", "right", "limits", "plain3"])
    tail = ctx.pick("tail", ["", " ORDER BY 1", " ORDER BY a DESC LIMIT 2", " LIMIT 1"])
    if k == "two":
        return f"{A} {op} {B}{tail}"
    if k == "limits":
        return f"(SELECT r.a FROM r ORDER BY r.b LIMIT 1) {op} {B}{tail}"
    op2 = ctx.pick("op2", ops)
    if k == "left":
        return f"({A} {op} {B}) {op2} {C}{tail}"
    if k == "plain3":
        return f"{A} {op} {B} {op2} {C}{tail}"
    return f"{A} {op} ({B} {op2} {C}){tail}"


def q_nest(ctx):
    return ctx.pick("q", [
        "SELECT r.a FROM r WHERE r.b = (SELECT max(s.c) FROM s WHERE s.a = r.a AND s.c > (SELECT min(t.d) FROM t WHERE t.b = r.b))",
        "SELECT x.a FROM (SELECT y.a FROM (SELECT r.a FROM r WHERE r.b = 1) AS y WHERE y.a > 2) AS x WHERE x.a < 9",
        "SELECT r.a FROM r WHERE EXISTS (SELECT 1 FROM s WHERE s.a = r.a AND NOT EXISTS (SELECT 1 FROM t WHERE t.d = s.c AND t.b = r.b))",
        "SELECT r.a FROM r WHERE r.a IN (SELECT s.a FROM s UNION SELECT t.b FROM t)",
        "SELECT x.n FROM (SELECT count(*) AS n, r.a FROM r GROUP BY r.a) AS x WHERE x.n > 1",
        "SELECT (SELECT count(*) FROM s WHERE s.a = r.a) AS n, r.b FROM r WHERE (SELECT count(*) FROM t) > 0",
        "SELECT r.a FROM r WHERE (r.a, r.b) IN (SELECT s.a, s.c FROM s)" if False else "SELECT r.a FROM r WHERE NOT (r.a IN (SELECT s.a FROM s))",
        "SELECT r.a FROM r WHERE r.a = (SELECT r.a FROM r WHERE r.b = 3)",
        "SELECT r.a, x.a FROM r, (SELECT s.a FROM s UNION ALL SELECT t.b FROM t) AS x WHERE r.b = x.a",
        "SELECT r.a FROM r WHERE r.b IN (WITH z AS (SELECT s.c FROM s) SELECT z.c FROM z)",
        "SELECT r.a FROM r JOIN (SELECT s.a, s.c FROM s WHERE s.c IN (1, 2)) AS x ON x.a = r.a AND x.c > r.b LEFT JOIN t ON t.b = r.b",
        "SELECT CASE WHEN EXISTS (SELECT 1 FROM s WHERE s.a = r.a) THEN 1 ELSE (SELECT min(t.d) FROM t) END FROM r",
        "SELECT r.a FROM r GROUP BY r.a HAVING count(*) > (SELECT count(*) FROM s WHERE s.a = r.a)",
    ])


ITEMS = ["1", "NULL", "r.b", "1", "'x'", "r.a + 1"]


def lst(ctx, name, n, items, sep=", "):
    """n items: every rotation of the item list, so that every item comes first, last and in the middle"""
    k = ctx.choose(name + ".rot", len(items))
    return sep.join(items[(k + i) % len(items)] for i in range(n))


def q_wide(ctx):
    """lists of every length: IN lists, conjuncts, CASE branches, arguments, rows, set operations, joins"""
    return wide(ctx, ["in", "tables", "and", "or", "case", "ctes", "rows", "setops", "args", "array", "joins", "on", "ctecols"])


def q_wide2(ctx):
    """lists of every length: targets, grouping, partitioning and ordering columns"""
    return wide(ctx, ["targets", "group", "order", "partition", "having"])


def wide(ctx, kinds):
    k = ctx.pick("k", kinds)
    n = ctx.choose("n", 5) + 1
    if k == "targets":
        d = ctx.pick("distinct", ["", "DISTINCT ", "DISTINCT ON (r.a) ", "DISTINCT ON (r.a, r.b) "])
        items = ["r.a", "r.b AS x", "r.a + 1 AS y", "abs(r.b)", "NULL AS z"]
        return f"SELECT {d}{lst(ctx, 't', n, items)} FROM r{' ORDER BY r.a, r.b DESC' if 'ON' in d else ''}"
    if k == "in":
        neg = ctx.pick("neg", ["", "NOT "])
        return f"SELECT r.a FROM r WHERE r.a {neg}IN ({lst(ctx, 'v', n, ITEMS)})"
    if k == "tables":
        n = min(n, 4)
        w = " AND ".join(f"p{i}.a = p{i + 1}.b" for i in range(n - 1))
        return f"SELECT {', '.join(f'p{i}.a AS x{i}' for i in range(n))} FROM {', '.join(f'r AS p{i}' for i in range(n))}" + (f" WHERE {w}" if w else "")
    if k in ("and", "or", "having"):
        leaves = ["r.a = 1", "r.b IS NOT NULL", "(r.a < 2 OR r.b < 3)", "NOT (r.a = 1 AND r.b = 2)", "r.a IN (1, NULL)"]
        sep = {"or": " OR "}.get(k, " AND ")
        if k == "or":
            leaves[2] = "(r.a < 2 AND r.b < 3)"
        p = lst(ctx, "p", n, leaves, sep)
        return f"SELECT r.a FROM r GROUP BY r.a, r.b HAVING {p}" if k == "having" else f"SELECT r.a FROM r WHERE {p}"
    if k == "group":
        items = ["r.a", "r.b", "r.a + r.b", "abs(r.a)", "CASE WHEN r.a = 1 THEN 2 ELSE 3 END"]
        return f"SELECT count(*), max(r.b) FROM r GROUP BY {lst(ctx, 'g', n, items)}"
    if k == "order":
        items = ["r.a", "r.b DESC", "r.a + 1 ASC", "abs(r.b) DESC NULLS FIRST", "r.b ASC NULLS LAST"]
        return f"SELECT r.a, r.b FROM r ORDER BY {lst(ctx, 'o', n, items)} LIMIT 1"
    if k == "case":
        items = ["WHEN r.a = 1 THEN 2", "WHEN r.b IS NULL THEN NULL", "WHEN r.a > r.b THEN r.a", "WHEN r.a < 3 AND r.b < 4 THEN r.b + 1"]
        e = ctx.pick("else", ["", " ELSE NULL", " ELSE 0"])
        return f"SELECT CASE {lst(ctx, 'c', n, items, ' ')}{e} END AS v FROM r"
    if k == "ctes":
        items = ["AS (SELECT r.a AS z FROM r)", "AS MATERIALIZED (SELECT s.c AS z FROM s WHERE s.a = 1)", "(z) AS (VALUES (1), (NULL))",
                 "AS NOT MATERIALIZED (SELECT t.d AS z FROM t)"]
        rot = ctx.choose("rot", len(items))
        n = min(n, 3)
        return ("WITH " + ", ".join(f"x{i} {items[(i + rot) % 4]}" for i in range(n)) + " SELECT " + ", ".join(f"x{i}.z AS z{i}" for i in range(n))
                + " FROM " + ", ".join(f"x{i}" for i in range(n)))
    if k == "rows":
        cells = ["1", "NULL", "2", "'x'", "1"]
        rot, m = ctx.choose("rot", 5), ctx.choose("m", 3) + 1
        n = min(n, 4)
        rows = ", ".join("(" + ", ".join(cells[(rot + i * m + j) % 5] for j in range(m)) + ")" for i in range(n))
        return f"SELECT * FROM (VALUES {rows}) AS v ({', '.join('abc'[:m])})"
    if k == "setops":
        op = ctx.pick("op", ["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
        sel = ["SELECT r.a FROM r", "SELECT s.c FROM s WHERE s.a = 1", "SELECT t.d FROM t", "SELECT NULL"]
        return f" {op} ".join(sel[i % 4] for i in range(min(n, 4)))
    if k == "args":
        return f"SELECT fun({lst(ctx, 'v', n - 1, ITEMS)}) AS v, coalesce({lst(ctx, 'w', n, ITEMS)}) AS w FROM r"
    if k == "array":
        return f"SELECT ARRAY[{lst(ctx, 'v', n, ITEMS)}] AS v FROM r WHERE r.a = ANY (ARRAY[{lst(ctx, 'w', n, ITEMS)}])"
    if k == "joins":
        n = min(n, 4)
        js = ["JOIN", "LEFT JOIN", "JOIN", "FULL JOIN", "CROSS JOIN"]
        rot = ctx.choose("rot", 5)
        f = "r AS p0"
        for i in range(1, n):
            j = js[(i + rot) % 5]
            f += f" {j} r AS p{i}" + ("" if j.startswith("CROSS") else f" ON p{i - 1}.a = p{i}.b")
        return f"SELECT {', '.join(f'p{i}.a AS x{i}' for i in range(n))} FROM {f}"
    if k == "partition":
        items = ["r.a", "r.b", "r.a + 1", "abs(r.b)"]
        m = ctx.choose("m", 4)
        o = f" ORDER BY {lst(ctx, 'o', m, ['r.b DESC', 'r.a', 'r.a + 2 NULLS FIRST'])}" if m else ""
        return f"SELECT sum(r.a) OVER (PARTITION BY {lst(ctx, 'p', min(n, 4), items)}{o}) AS w FROM r"
    if k == "on":
        leaves = ["s.a = r.a", "s.c > 1", "(r.b = 1 OR s.c = 2)", "r.b IS NULL", "NOT (r.a = 3)"]
        return f"SELECT r.a, s.c FROM r {ctx.pick('j', ['JOIN', 'LEFT JOIN'])} s ON {lst(ctx, 'p', n, leaves, ' AND ')}"
    n = min(n, 4)
    return f"WITH x ({', '.join('pqrs'[:n])}) AS (VALUES ({lst(ctx, 'v', n, ['1', 'NULL', '2'])}), ({lst(ctx, 'w', n, ['3', '1', 'NULL'])})) SELECT * FROM x"


REJECTS = [
    "SELECT r.a FROM r INTERSECT ALL SELECT s.a FROM s", "SELECT r.a FROM r EXCEPT ALL SELECT s.a FROM s", "SELECT string_agg(r.a, ',' ORDER BY r.b) FROM r",
    "SELECT sum(r.a) OVER (ORDER BY r.b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM r", "SELECT sum(r.a) OVER (ROWS UNBOUNDED PRECEDING) FROM r",
    "SELECT sum(r.a) OVER w FROM r WINDOW w AS (ORDER BY r.b)", "SELECT percentile_cont(0.5) WITHIN GROUP (ORDER BY r.a) FROM r",
    "SELECT r.a FROM r ORDER BY r.a FETCH FIRST 1 ROWS WITH TIES", "SELECT r.a FROM r FOR UPDATE", "SELECT x.p FROM r AS x (p, q)",
    "SELECT x.p FROM (SELECT r.a FROM r) AS x (p)", "SELECT j.a FROM (r JOIN t ON r.a = t.d) AS j", "WITH x (p) AS (SELECT r.a FROM r) SELECT x.p FROM x",
    "SELECT r.a FROM r NATURAL JOIN s", "SELECT r.a FROM r JOIN s USING (a)", "SELECT r.a FROM r LEFT JOIN s USING (a)", "SELECT r.a FROM ONLY r",
    "SELECT r.a FROM r GROUP BY DISTINCT r.a", "SELECT count(*) FROM r GROUP BY ROLLUP (r.a)", "SELECT r.a FROM r WHERE r.a NOT BETWEEN 1 AND 2",
    "SELECT r.a FROM r WHERE (r.a = 1) IS TRUE", "SELECT r.a FROM r WHERE (r.a = 1) IS NOT FALSE", "SELECT r.a FROM r WHERE r.a SIMILAR TO 'x'", "SELECT greatest(r.a, r.b) FROM r", "SELECT least(r.a, 1) FROM r",
    "SELECT nullif(r.a, r.b) FROM r", "SELECT r.a FROM r WHERE r.a NOT IN (SELECT s.a FROM s)", "SELECT r.a FROM r WHERE (r.a, r.b) = (1, 2)",
    "SELECT r.a FROM r WHERE (r.a, r.b) IN (SELECT s.a, s.c FROM s)", "SELECT r.a FROM r WHERE r.a <> ALL (ARRAY[1, 2])", "SELECT ARRAY(SELECT s.a FROM s) FROM r",
    "SELECT r.a FROM r TABLESAMPLE system (10)", "SELECT r.a COLLATE \"C\" FROM r", "SELECT r.a FROM r LIMIT (1 + 1)", "SELECT r.a FROM r LIMIT ALL", "SELECT r.a FROM r LIMIT NULL OFFSET 1",
    "SELECT DISTINCT ON (r.a, r.b) r.a FROM r ORDER BY r.a, r.b", "SELECT count(DISTINCT r.a) OVER () FROM r", "SELECT count(*) OVER (PARTITION BY r.a) FROM r",
    "SELECT INTERVAL '1' DAY FROM r", "SELECT INTERVAL '1 day' FROM r", "SELECT CAST(r.a AS interval(3)) FROM r", "SELECT INTERVAL '1' YEAR TO MONTH FROM r", "SELECT DATE '2020-01-01' + r.a FROM r",
    "SELECT r.a FROM r WHERE r.a = ''", "SELECT r.a FROM r WHERE r.a = 0", "SELECT r.a FROM r WHERE r.a = 0.1", "SELECT r.a FROM r WHERE r.a = 12345678901234567890", "SELECT r.a FROM r WHERE r.a = 123456789.123456789123", "SELECT r.a FROM r WHERE r.a = 1e30", "SELECT r.a FROM r WHERE r.a = -1.5",
    "SELECT r.a FROM r WHERE r.a = 'it''s'", "SELECT r.a FROM r WHERE r.a LIKE 'x!%' ESCAPE '!'", "SELECT r.a FROM r WHERE r.a ~ 'x'", "SELECT r.a FROM r WHERE r.a @> ARRAY[1]", "SELECT EXTRACT(year FROM r.a) FROM r",
    "SELECT substring(r.a FROM 1 FOR 2) FROM r", "SELECT r.a FROM r WHERE r.a BETWEEN SYMMETRIC 2 AND 1", "SELECT r.a FROM r WHERE NOT r.a", "SELECT r.a FROM r WHERE r.a::bool AND true", "SELECT r.a FROM r WHERE false",
    "SELECT current_date", "SELECT 1", "SELECT 1 WHERE false", "SELECT r.a FROM r ORDER BY r.a USING <", "TABLE r", "VALUES (1, 2)", "SELECT FROM r", "SELECT s.a FROM s, LATERAL generate_series(1, s.c) AS g",
    "SELECT x.a, x.b FROM ROWS FROM (generate_series(1, 2), generate_series(3, 4)) AS x (a, b)", "SELECT x.g, x.o FROM generate_series(1, 2) WITH ORDINALITY AS x (g, o)", "SELECT all_.a FROM r AS all_ WHERE all_.b = ALL (SELECT s.a FROM s)",
    "SELECT r.a FROM r WHERE EXISTS (SELECT 1 FROM s WHERE s.a = r.a) = true", "SELECT r.a = 1 AS t, r.b IS NULL FROM r", "SELECT NOT (r.a = 1) FROM r", "SELECT r.a AS \"Weird Name\" FROM r ORDER BY \"Weird Name\"",
    "SELECT \"select\".a FROM r AS \"select\"", "SELECT pg_catalog.abs(r.a) FROM r", "SELECT (r.a = 1 OR r.b = 2)::int FROM r", "SELECT -(-r.a) FROM r", "SELECT - (r.a + 1) FROM r", "SELECT (- r.a)::text FROM r", "SELECT -1::text FROM r", "SELECT (-1)::text FROM r",
    "SELECT +r.a FROM r", "SELECT r.a[1] FROM r", "SELECT r.a[1][2] FROM r", "SELECT r.a[:2] FROM r", "SELECT r.a[1:] FROM r", "SELECT r.a[:] FROM r", "SELECT (ARRAY[ARRAY[1], ARRAY[2]])[1][1] FROM r", "SELECT r.a::int[] FROM r", "SELECT '{1}'::int[] FROM r",
    "SELECT r.a FROM r WHERE EXISTS (SELECT 1 FROM r AS x WHERE x.a = r.b)", "SELECT r.a, x.b FROM r AS x, r WHERE x.a = r.b", "SELECT r.a FROM r WHERE r.a IN (SELECT x.a FROM r AS x WHERE x.b = r.b)",
    "SELECT u.a FROM u, sch.u AS x WHERE u.a = x.e", "SELECT r.a FROM r WHERE r.b = (SELECT max(y.b) FROM r AS y, s WHERE y.a = r.a AND s.c = r.b)",
    "SELECT sum(r.a) + 1 FROM r GROUP BY r.b", "SELECT r.a FROM r, r AS x, r AS y WHERE r.a = x.a AND x.b = y.b",
]


def q_reject(ctx):
    """features at the border: either a clear rejection or a faithful translation"""
    return ctx.pick("q", REJECTS)


# unqualified references: only resolvable with the schema
def q_bind(ctx):
    return ctx.pick("q", [
        "SELECT a FROM r", "SELECT c FROM r, s WHERE b = c", "SELECT x.a, c FROM r x, s WHERE b = 1", "SELECT c, d FROM s, t WHERE b = c AND d > 1",
        "SELECT r.a FROM r WHERE EXISTS (SELECT 1 FROM s WHERE c = b)", "SELECT b FROM r WHERE a IN (SELECT c FROM s WHERE s.a = b)",
        "SELECT z FROM (SELECT a AS z FROM r) AS x WHERE z > 1", "SELECT a, c FROM (SELECT a, b FROM r) AS x, (SELECT c FROM s) AS y WHERE b = c",
        "WITH x AS (SELECT a AS z FROM r) SELECT z FROM x WHERE z = 1", "SELECT a FROM r GROUP BY a HAVING sum(b) > 1 ORDER BY a",
        "SELECT r.a FROM r JOIN s ON b = c", "SELECT b, d FROM t", "SELECT b FROM r WHERE b = (SELECT max(d) FROM t WHERE t.b = a)",
        "SELECT p.a, q.a FROM r p, r q WHERE p.b = q.b", "SELECT a, e FROM sch.u", "SELECT d FROM r, LATERAL (SELECT d FROM t WHERE t.b = a) AS l",
        "SELECT a FROM r UNION SELECT c FROM s", "SELECT sum(a) OVER (PARTITION BY b) FROM r", "SELECT CASE WHEN a > 1 THEN b ELSE 0 END FROM r",
        "WITH x AS (SELECT a, c FROM s) SELECT b, c FROM x, r WHERE x.a = r.a", "SELECT * FROM (SELECT * FROM s) AS x WHERE c = 1",
        "SELECT a FROM r, r AS y WHERE r.a = y.b" if False else "SELECT r.a FROM r WHERE EXISTS (SELECT 1 FROM r AS x WHERE x.a = r.b AND x.b = 1)",
        "SELECT e, c FROM u, sch.u AS v, s WHERE v.e = c", "SELECT k FROM u", "SELECT b FROM r WHERE EXISTS (SELECT 1 FROM t WHERE t.b = a AND d > 1)",
        "SELECT x.a, x.k FROM (SELECT * FROM r, u) AS x WHERE k = 1", "SELECT r.b AS a FROM r WHERE a = 1 ORDER BY a",
        "SELECT c FROM (SELECT a AS c, b FROM r) AS x WHERE c = b", "WITH s AS (SELECT a AS c FROM r) SELECT c FROM s WHERE c > 1",
        "WITH r AS (SELECT c AS a FROM s) SELECT a FROM r", "SELECT a FROM r WHERE b IN (SELECT b FROM t) AND a > 1",
        "SELECT d FROM (SELECT d, b FROM t WHERE b > 1 UNION SELECT c, a FROM s) AS q WHERE b = 2",
        "SELECT x.b FROM r AS x WHERE EXISTS (SELECT 1 FROM s WHERE s.a = x.a AND c > b)",
        "SELECT b FROM r WHERE a = 1 AND b IN (SELECT d FROM t WHERE d > a)"])


META = ["", "SET a.b = 'on'; ", "SET enable_hashjoin = off; SET work_mem = '4MB'; ", "SET join_collapse_limit = 1; ",
        "EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (FORMAT JSON) ", "EXPLAIN (ANALYZE, FORMAT JSON) ", "EXPLAIN (FORMAT XML) ",
        "SET geqo = 'off'; EXPLAIN (ANALYZE true, FORMAT TEXT) "]


def q_meta(ctx):
    return ctx.pick("meta", META) + ctx.pick("q", ["SELECT r.a FROM r", "SELECT r.a FROM r UNION SELECT s.a FROM s", "WITH x AS (SELECT 1) SELECT r.a FROM r, x"])


SECTIONS = dict(expr=q_expr, arith=q_arith, place=q_expr_place, pred=q_pred, pplace=q_pred_place, bool=q_bool, bool3=q_bool3, spine=q_spine, frm=q_from, join3=q_join3, join4=q_join4,
                clauses=q_clauses, group=q_group, window=q_window, cte=q_cte, set=q_set, nest=q_nest, bind=q_bind, meta=q_meta, reject=q_reject, wide=q_wide, wide2=q_wide2)
