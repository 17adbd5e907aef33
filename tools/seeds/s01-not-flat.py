PROPERTY = 'S01'
NEEDS = 'a division whose divisor is a division in parentheses'
BREAKS = 'a / (b / c) is read as a / b / c'
EDITS = [('sql_parsing/utils.py', '''    if op in {"add", "mul", "and", "or"}:
''', '''    if op in {"add", "mul", "div", "and", "or"}:
''')]
# DEMO
from sql_parsing import parse
a, b = parse('select a / (b / c) from t'), parse('select a / b / c from t')
expect('the trees differ', a != b, True)
