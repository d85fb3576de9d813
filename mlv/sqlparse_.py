"""Independent SQL lexer and parser (AST as nested tuples) for the SQL text metrics_layer emits.

It is strict: anything it does not recognise is a SqlSyntaxError, and which literal/quoting rules apply
depends on the warehouse the SQL was compiled for.
"""


class SqlError(Exception):
    pass


class SqlSyntaxError(SqlError):
    pass


BACKSLASH_ESCAPES = {"SNOWFLAKE", "BIGQUERY", "DATABRICKS", "REDSHIFT"}
NO_DOUBLED_QUOTE = {"BIGQUERY", "DATABRICKS"}

RESERVED = {
    "SELECT", "FROM", "WHERE", "GROUP", "BY", "HAVING", "ORDER", "LIMIT", "UNION", "ALL", "AS", "ON",
    "JOIN", "LEFT", "RIGHT", "FULL", "INNER", "OUTER", "CROSS", "WITH", "AND", "OR", "NOT", "IN", "IS",
    "NULL", "LIKE", "ILIKE", "BETWEEN", "CASE", "WHEN", "THEN", "ELSE", "END", "DISTINCT", "ASC", "DESC",
    "TOP", "OFFSET", "USING",
}
UNITS = {
    "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "ISOWEEK", "MONTH", "QUARTER", "YEAR", "ISOYEAR", "DOY",
    "DAYOFYEAR", "DOW", "DAYOFWEEK", "WEEKDAY", "Y", "MILLISECOND", "MICROSECOND",
}
UNIT_FUNCS = {
    "DATEDIFF", "DATEADD", "DATE_TRUNC", "DATETIME_TRUNC", "TIMESTAMP_TRUNC", "DATE_DIFF", "TIMESTAMP_DIFF",
    "TIMESTAMPDIFF", "DATEPART", "DATENAME", "DATETIME_DIFF", "TIMESTAMPADD",
}
TWO = ("<=", ">=", "<>", "!=", "||", "::", "=>")


def lex(sql, dialect="SNOWFLAKE"):
    toks = []
    i, n = 0, len(sql)
    while i < n:
        c = sql[i]
        if c.isspace():
            i += 1
            continue
        if sql.startswith("--", i):
            j = sql.find("\n", i)
            i = n if j < 0 else j
            continue
        if sql.startswith("/*", i):
            j = sql.find("*/", i)
            if j < 0:
                raise SqlSyntaxError("unterminated comment")
            i = j + 2
            continue
        if c == "'":
            buf = []
            j = i + 1
            while True:
                if j >= n:
                    raise SqlSyntaxError("unterminated string literal near %r" % sql[i : i + 30])
                d = sql[j]
                if d == "\\" and dialect in BACKSLASH_ESCAPES:
                    if j + 1 >= n:
                        raise SqlSyntaxError("unterminated string literal")
                    e = sql[j + 1]
                    buf.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e))
                    j += 2
                    continue
                if d == "'":
                    if j + 1 < n and sql[j + 1] == "'":
                        if dialect in NO_DOUBLED_QUOTE:
                            raise SqlSyntaxError("adjacent string literals (doubled quote) in %s" % dialect)
                        buf.append("'")
                        j += 2
                        continue
                    break
                buf.append(d)
                j += 1
            toks.append(("str", "".join(buf), i))
            i = j + 1
            continue
        if c == '"' or c == "`":
            if c == '"' and dialect == "BIGQUERY":
                j = sql.find(c, i + 1)
                if j < 0:
                    raise SqlSyntaxError("unterminated string")
                toks.append(("str", sql[i + 1 : j], i))
                i = j + 1
                continue
            j = sql.find(c, i + 1)
            if j < 0:
                raise SqlSyntaxError("unterminated quoted identifier")
            toks.append(("qid", sql[i + 1 : j], i))
            i = j + 1
            continue
        if c.isdigit() or (c == "." and i + 1 < n and sql[i + 1].isdigit()):
            j = i
            isf = False
            while j < n and sql[j].isdigit():
                j += 1
            if j < n and sql[j] == "." :
                isf = True
                j += 1
                while j < n and sql[j].isdigit():
                    j += 1
            if j < n and sql[j] in "eE" and (
                sql[j + 1 : j + 2].isdigit() or (sql[j + 1 : j + 2] in ("+", "-") and sql[j + 2 : j + 3].isdigit())
            ):
                isf = True
                j += 2
                while j < n and sql[j].isdigit():
                    j += 1
            if j < n and (sql[j].isalpha() or sql[j] == "_"):
                raise SqlSyntaxError("bad number near %r" % sql[i : j + 5])
            txt = sql[i:j]
            toks.append(("num", float(txt) if isf else int(txt), i))
            i = j
            continue
        if c.isalpha() or c == "_":
            j = i
            while j < n and (sql[j].isalnum() or sql[j] in "_$"):
                j += 1
            toks.append(("id", sql[i:j], i))
            i = j
            continue
        two = sql[i : i + 2]
        if two in TWO:
            toks.append(("op", two, i))
            i += 2
            continue
        if c in "()+-*/%,.;<>=[]{}:":
            toks.append(("op", c, i))
            i += 1
            continue
        raise SqlSyntaxError("unexpected character %r near %r" % (c, sql[max(0, i - 10) : i + 20]))
    toks.append(("eof", None, n))
    return toks


class Parser:
    def __init__(self, sql, dialect):
        self.sql = sql
        self.d = dialect
        self.t = lex(sql, dialect)
        self.i = 0

    # -- helpers
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def kw(self, *words, k=0):
        """Is the token at k one of these keywords?"""
        t = self.peek(k)
        return t[0] == "id" and t[1].upper() in words

    def op(self, *ops, k=0):
        t = self.peek(k)
        return t[0] == "op" and t[1] in ops

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def err(self, what):
        t = self.peek()
        at = t[2]
        raise SqlSyntaxError("%s at %r (…%s…)" % (what, t[1], self.sql[max(0, at - 30) : at + 30].replace("\n", " ")))

    def expect_kw(self, *words):
        if not self.kw(*words):
            self.err("expected %s" % "/".join(words))
        return self.next()

    def expect_op(self, o):
        if not self.op(o):
            self.err("expected %s" % o)
        return self.next()

    def accept_kw(self, *words):
        if self.kw(*words):
            return self.next()
        return None

    def accept_op(self, *ops):
        if self.op(*ops):
            return self.next()
        return None

    # -- statements
    def statement(self):
        q = self.query()
        semi = 0
        while self.accept_op(";"):
            semi += 1
        if self.peek()[0] != "eof":
            self.err("unexpected text after the statement")
        return q, semi

    def query(self):
        ctes = []
        if self.accept_kw("WITH"):
            while True:
                name = self.ident()
                self.expect_kw("AS")
                self.expect_op("(")
                ctes.append((name, self.query()))
                self.expect_op(")")
                if not self.accept_op(","):
                    break
        body = self.setop()
        order, limit = [], None
        if self.kw("ORDER"):
            self.next()
            self.expect_kw("BY")
            order = self.order_list()
        if self.accept_kw("LIMIT"):
            t = self.next()
            if t[0] != "num":
                self.err("LIMIT needs a number")
            limit = t[1]
            if self.d in ("SQL_SERVER", "AZURE_SYNAPSE"):
                raise SqlSyntaxError("LIMIT is not T-SQL")
        return ("query", tuple(ctes), body, tuple(order), limit)

    def setop(self):
        parts = [self.select_core()]
        kinds = []
        while self.kw("UNION"):
            self.next()
            kinds.append("ALL" if self.accept_kw("ALL") else "DISTINCT")
            parts.append(self.select_core())
        if len(parts) == 1:
            return parts[0]
        return ("union", tuple(parts), tuple(kinds))

    def order_list(self):
        out = []
        while True:
            e = self.expr()
            direction = "ASC"
            if self.accept_kw("ASC"):
                pass
            elif self.accept_kw("DESC"):
                direction = "DESC"
            nulls = None
            if self.kw("NULLS"):
                self.next()
                w = self.expect_kw("FIRST", "LAST")
                nulls = w[1].upper()
                if self.d in ("SQL_SERVER", "AZURE_SYNAPSE"):
                    raise SqlSyntaxError("NULLS FIRST/LAST is not T-SQL")
            out.append((e, direction, nulls))
            if not self.accept_op(","):
                return out

    def select_core(self):
        if self.op("("):
            # parenthesised select
            self.next()
            q = self.query()
            self.expect_op(")")
            return ("paren", q)
        self.expect_kw("SELECT")
        distinct = bool(self.accept_kw("DISTINCT"))
        top = None
        if self.kw("TOP"):
            if self.d not in ("SQL_SERVER", "AZURE_SYNAPSE"):
                raise SqlSyntaxError("TOP is only T-SQL")
            self.next()
            paren = self.accept_op("(")
            t = self.next()
            if t[0] != "num":
                self.err("TOP needs a number")
            top = t[1]
            if paren:
                self.expect_op(")")
        items = []
        while True:
            if self.op("*"):
                self.next()
                items.append((("star", None), None))
            else:
                e = self.expr()
                items.append((e, self.alias()))
            if not self.accept_op(","):
                break
        frm = None
        if self.accept_kw("FROM"):
            frm = self.from_clause()
        where = self.expr() if self.accept_kw("WHERE") else None
        group = []
        if self.kw("GROUP"):
            self.next()
            self.expect_kw("BY")
            while True:
                group.append(self.expr())
                if not self.accept_op(","):
                    break
        having = self.expr() if self.accept_kw("HAVING") else None
        return ("select", distinct, top, tuple(items), frm, where, tuple(group), having)

    def ident(self):
        t = self.next()
        if t[0] == "qid":
            return t[1].lower()
        if t[0] == "id" and t[1].upper() not in RESERVED:
            return t[1].lower()
        self.i -= 1
        self.err("expected a name")

    def alias(self):
        if self.accept_kw("AS"):
            return self.ident()
        t = self.peek()
        if t[0] == "qid" or (t[0] == "id" and t[1].upper() not in RESERVED and t[1].upper() not in ("NULLS",)):
            return self.ident()
        return None

    def from_clause(self):
        left = self.table_primary()
        while True:
            if self.op(","):
                self.next()
                right = self.table_primary()
                left = ("join", "CROSS", left, right, None)
                continue
            kind = None
            if self.kw("JOIN"):
                kind = "INNER"
                self.next()
            elif self.kw("INNER"):
                self.next()
                self.expect_kw("JOIN")
                kind = "INNER"
            elif self.kw("LEFT", "RIGHT", "FULL"):
                kind = self.next()[1].upper()
                self.accept_kw("OUTER")
                self.expect_kw("JOIN")
            elif self.kw("CROSS"):
                self.next()
                self.expect_kw("JOIN")
                kind = "CROSS"
            else:
                return left
            right = self.table_primary()
            cond = None
            if kind != "CROSS":
                self.expect_kw("ON")
                cond = self.expr()
            left = ("join", kind, left, right, cond)

    def table_primary(self):
        if self.op("("):
            self.next()
            q = self.query()
            self.expect_op(")")
            a = self.alias()
            return ("subq", q, a)
        if self.kw("TABLE") and self.op("(", k=1):
            self.next()
            self.next()
            e = self.expr()
            self.expect_op(")")
            return ("tablefunc", e, self.alias())
        if (self.kw("UNNEST", "GENERATE_SERIES")) and self.op("(", k=1):
            e = self.expr()
            return ("tablefunc", e, self.alias())
        parts = [self.table_part()]
        while self.accept_op("."):
            parts.append(self.table_part())
        name = ".".join(parts)
        return ("table", name, self.alias())

    def table_part(self):
        t = self.peek()
        # pypika may emit schema or table names that contain anything but spaces; digits are fine in parts
        if t[0] == "num":
            self.next()
            return str(t[1])
        return self.ident()

    # -- expressions
    def expr(self):
        return self.or_()

    def or_(self):
        xs = [self.and_()]
        while self.accept_kw("OR"):
            xs.append(self.and_())
        return xs[0] if len(xs) == 1 else ("or",) + tuple(xs)

    def and_(self):
        xs = [self.not_()]
        while self.accept_kw("AND"):
            xs.append(self.not_())
        return xs[0] if len(xs) == 1 else ("and",) + tuple(xs)

    def not_(self):
        if self.accept_kw("NOT"):
            return ("not", self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            if self.op("=", "<>", "!=", "<", "<=", ">", ">="):
                o = self.next()[1]
                a = ("cmp", "<>" if o == "!=" else o, a, self.add())
                continue
            if self.kw("IS"):
                self.next()
                neg = bool(self.accept_kw("NOT"))
                w = self.expect_kw("NULL", "TRUE", "FALSE")[1].upper()
                a = ("is", w, neg, a)
                continue
            neg = False
            if self.kw("NOT") and self.kw("IN", "LIKE", "ILIKE", "BETWEEN", k=1):
                self.next()
                neg = True
            if self.kw("IN"):
                self.next()
                self.expect_op("(")
                if self.kw("SELECT", "WITH"):
                    q = self.query()
                    self.expect_op(")")
                    a = ("insub", a, q)
                else:
                    xs = []
                    if not self.op(")"):
                        xs.append(self.expr())
                        while self.accept_op(","):
                            xs.append(self.expr())
                    self.expect_op(")")
                    if not xs:
                        raise SqlSyntaxError("empty IN list")
                    a = ("in", a, tuple(xs))
                if neg:
                    a = ("not", a)
                continue
            if self.kw("LIKE", "ILIKE"):
                w = self.next()[1].upper()
                a = ("like", w, a, self.add())
                if neg:
                    a = ("not", a)
                continue
            if self.kw("BETWEEN"):
                self.next()
                lo = self.add()
                self.expect_kw("AND")
                hi = self.add()
                a = ("and", ("cmp", ">=", a, lo), ("cmp", "<=", a, hi))
                if neg:
                    a = ("not", a)
                continue
            if neg:
                self.err("dangling NOT")
            return a

    def add(self):
        a = self.mul()
        while self.op("+", "-", "||"):
            o = self.next()[1]
            a = ("bin", o, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.op("*", "/", "%"):
            o = self.next()[1]
            a = ("bin", o, a, self.unary())
        return a

    def unary(self):
        if self.op("-"):
            self.next()
            return ("neg", self.unary())
        if self.op("+"):
            self.next()
            return self.unary()
        return self.postfix()

    def postfix(self):
        a = self.primary()
        while True:
            if self.op("::"):
                self.next()
                a = ("cast", a, self.type_name(), None)
            elif self.kw("AT") and self.kw("TIME", k=1):
                self.next()
                self.next()
                self.expect_kw("ZONE")
                a = ("atz", a, self.primary())
            else:
                return a

    def type_name(self):
        t = self.next()
        if t[0] != "id":
            self.i -= 1
            self.err("expected a type")
        name = t[1].upper()
        if name == "DOUBLE" and self.kw("PRECISION"):
            self.next()
            name = "DOUBLE PRECISION"
        if name == "TIMESTAMP" and self.kw("WITH", "WITHOUT"):
            w = self.next()[1].upper()
            self.expect_kw("TIME")
            self.expect_kw("ZONE")
            name += " " + w
        if self.op("("):
            self.next()
            while not self.op(")"):
                self.next()
            self.next()
        return name

    def primary(self):
        t = self.peek()
        if t[0] == "num":
            self.next()
            return ("lit", t[1])
        if t[0] == "str":
            self.next()
            return ("lit", t[1])
        if self.op("("):
            self.next()
            if self.kw("SELECT", "WITH"):
                q = self.query()
                self.expect_op(")")
                return ("scalar", q)
            e = self.expr()
            self.expect_op(")")
            return e
        if t[0] == "qid":
            return self.column()
        if t[0] != "id":
            self.err("expected an expression")
        u = t[1].upper()
        if u == "NULL":
            self.next()
            return ("lit", None)
        if u in ("TRUE", "FALSE") and not self.op("(", k=1):
            self.next()
            if self.d in ("SQL_SERVER", "AZURE_SYNAPSE"):
                raise SqlSyntaxError("TRUE/FALSE literal is not T-SQL")
            return ("lit", u == "TRUE")
        if u == "CASE":
            return self.case()
        if u == "CAST" and self.op("(", k=1):
            self.next()
            self.next()
            e = self.expr()
            self.expect_kw("AS")
            ty = self.type_name()
            fmt = None
            if self.accept_kw("FORMAT"):
                fmt = self.next()[1]
            self.expect_op(")")
            return ("cast", e, ty, fmt)
        if u == "EXTRACT" and self.op("(", k=1):
            self.next()
            self.next()
            unit = self.next()
            if unit[0] not in ("id", "str"):
                self.err("EXTRACT unit")
            self.expect_kw("FROM")
            e = self.expr()
            self.expect_op(")")
            return ("extract", unit[1].upper(), e)
        if u == "INTERVAL":
            self.next()
            v = self.next()
            if v[0] == "op" and v[1] == "-":
                v = self.next()
                v = (v[0], -v[1])
            if v[0] not in ("str", "num"):
                self.err("INTERVAL value")
            if v[0] == "str" and not self.kw(*UNITS):
                # '3 days' form
                ps = str(v[1]).split()
                if len(ps) != 2:
                    self.err("INTERVAL")
                return ("interval", int(ps[0]), ps[1].upper().rstrip("S"))
            unit = self.next()[1].upper()
            return ("interval", int(v[1]), unit)
        if u in ("DATE", "TIMESTAMP", "DATETIME") and self.peek(1)[0] == "str":
            self.next()
            s = self.next()
            return ("cast", ("lit", s[1]), u, None)
        if self.op("(", k=1) and u not in RESERVED | {"LEFT"} or (u in ("LEFT", "RIGHT") and self.op("(", k=1)):
            return self.call()
        if u in RESERVED:
            self.err("unexpected keyword")
        if u in ("CURRENT_DATE", "CURRENT_TIMESTAMP"):
            self.next()
            return ("call", u, False, ())
        return self.column()

    def case(self):
        self.next()
        base = None
        if not self.kw("WHEN"):
            base = self.expr()
        whens = []
        while self.accept_kw("WHEN"):
            c = self.expr()
            self.expect_kw("THEN")
            whens.append((c, self.expr()))
        if not whens:
            self.err("CASE without WHEN")
        els = self.expr() if self.accept_kw("ELSE") else ("lit", None)
        self.expect_kw("END")
        return ("case", base, tuple(whens), els)

    def call(self):
        name = self.next()[1].upper()
        self.expect_op("(")
        distinct = False
        args = []
        if self.op("*") and self.op(")", k=1):
            self.next()
            args = [("star", None)]
        elif not self.op(")"):
            distinct = bool(self.accept_kw("DISTINCT"))
            while True:
                if name in UNIT_FUNCS and self.kw(*UNITS) and self.op(",", ")", k=1):
                    args.append(("lit", self.next()[1].upper()))
                elif self.peek()[0] == "id" and self.op("=>", k=1):
                    pname = self.next()[1].upper()
                    self.next()
                    args.append(("named", pname, self.expr()))
                elif name == "UNNEST" and self.kw("GENERATE_DATE_ARRAY"):
                    args.append(self.expr())
                else:
                    args.append(self.expr())
                if not self.accept_op(","):
                    break
        self.expect_op(")")
        return ("call", name, distinct, tuple(args))

    def column(self):
        parts = [self.ident()]
        while self.op(".") :
            self.next()
            if self.op("*"):
                self.next()
                return ("star", parts[-1])
            t = self.next()
            if t[0] not in ("id", "qid"):
                self.i -= 1
                self.err("expected a column name")
            parts.append(t[1].lower())
        return ("col", tuple(parts))


def parse(sql, dialect):
    """-> (query AST, number of terminating semicolons)"""
    return Parser(sql, dialect).statement()
