import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/executor.py"
RUN = 'from syncanysql.executor import Executor, EnvVariables\nimport datetime\nclass S:\n    def get(self): return {"date_format": "%d.%m.%Y"}\ndef text(v, sql):\n    e = Executor.__new__(Executor); e.env_variables = EnvVariables(); e.env_variables.update(v); e.session_config = S()\n    return e.compile_variable(sql)\n'
plant("c03-list-dates", "C03", [(X, 'return "(" + ",".join([format_variable_value(v) for v in value]) + ")"', 'return "(" + ",".join([format_variable_value(v) if v is None or isinstance(v, (bool, SequenceTypes)) else str(v) for v in value]) + ")"')],
  RUN + 'assert text({"d": [datetime.date(2024, 2, 5)]}, "in ${d}") == "in (05.02.2024)"', "a list of dates with a session date format", "dates inside a list value ignore the session format")
plant("c03-default-strip", "C03", [(X, '                    variable_value = default_value[1:]', '                    variable_value = default_value.strip(": ")')],
  RUN + 'assert text({}, "t = \'${zz:12:}\'") == "t = \'12:\'"', "an unknown variable whose default text ends with a colon or blanks", "the default text loses its outer colons and blanks")
