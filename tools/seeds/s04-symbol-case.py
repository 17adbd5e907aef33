PROPERTY = 'S04'
NEEDS = 'names or strings in double quotes and identifier_case'
BREAKS = 'the content of double quotes changes its case'
EDITS = [('scheduler/compile/parse/filters/tokens.py', '''            if ttype in self.ttype and value.strip()[0] != '"':
''', '''            if ttype in self.ttype:
''')]
# DEMO
from scheduler.compile import parse
expect('text', parse.format('select Aa from t where x = "It is"', identifier_case='upper'), 'select AA from T where X = "It is"')
