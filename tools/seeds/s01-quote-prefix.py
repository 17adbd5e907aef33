PROPERTY = 'S01'
NEEDS = 'a quoted name that begins like an ordinary one but has other characters later, such as a dash or a space'
BREAKS = 'the name is written without quotes: the statement does not parse back, or means something else'
EDITS = [('sql_parsing/formatting.py', '''VALID = re.compile(r"^[a-zA-Z_]\\w*$")
''', '''VALID = re.compile(r"^[a-zA-Z_]\\w*")
''')]
# DEMO
from sql_parsing import parse, format
t = parse('select a from t where `x y` = 1')
try:
    expect('read again', parse(format(t)), t)
except Exception as e:
    expect('read again', repr(e), t)
