import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
plant("c05-none-word", "C05", [("syncanysql/taskers/set.py", "if value.lower() == 'null':", "if value.lower() in ('null', 'none'):")],
  'from syncanysql.taskers.set import SetCommandTasker\ns = SetCommandTasker({"key": "@a", "value": ""})\ntry:\n    r = s.parse_value("None")\nexcept ValueError: sys.exit(0)\nassert False, r', "the word none in some case", "SET reads an unknown word as NULL")
plant("c05-argument-blanks", "C05", [("syncanysql/utils.py", '''        return value[1:-1]\n''', '''        return value[1:-1].strip()\n''')],
  'from syncanysql.utils import parse_value\nassert parse_value("\' - \'") == " - "', "quoted argument text with blanks at its ends", "a quoted placeholder argument loses its blanks")
