import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/parser.py"
H = 'from syncanysql.parser import SqlParser\ndef split(t): return [(s.sql, s.lineno) for s in SqlParser(t).split()]\n'
plant("c01-three-backslashes", "C01", [(X, "if (self.index - backslash + 1) % 2 != 0:", "if self.sql[self.index - 1] == '\\\\' and self.sql[self.index - 2] != '\\\\':")],
  H + 'assert split("select \'a\\\\\\\\\\\\\';b\'; select 2") == [("select \'a\\\\\\\\\\\\\';b\'", 1), ("select 2", 1)]', "a quote after three backslashes", "text escaped after an escaped backslash ends the quoted text early")
plant("c01-lines-in-text", "C01", [(X, "            if self.sql[self.index] != c:\n                self.next()\n                continue\n", "            if self.sql[self.index] != c:\n                end_index = self.sql.find(c, self.index)\n                self.index = end_index if end_index >= 0 else self.len\n                continue\n")],
  H + 'assert split("select \'a\\n\\nb\';\\nselect 2") == [("select \'a\\n\\nb\'", 1), ("select 2", 4)]', "a statement after a quoted text that spans lines", "the line numbers of later statements are too small")
