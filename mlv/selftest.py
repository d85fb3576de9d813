"""Setup: nothing has to be built; shows that the code under test imports and that the bundled SQL engine computes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mlv.common import REPO
from mlv.sqlengine import Engine
import metrics_layer
assert os.path.realpath(metrics_layer.__file__).startswith(os.path.realpath(REPO)), metrics_layer.__file__
e = Engine("SNOWFLAKE", {"t": (["a", "b"], [(1, 2.5), (1, None), (2, 3.0)])})
cols, rows = e.run("SELECT t.a as a, SUM(t.b) as s, COUNT(*) as n FROM t GROUP BY t.a ORDER BY a ASC NULLS LAST;")
assert [c.lower() for c in cols] == ["a", "s", "n"] and [tuple(r) for r in rows] == [(1, 2.5, 2), (2, 3.0, 1)], rows
print("setup ok")
