PROPERTY = 'S04'
NEEDS = 'a line comment before a comma of a list and strip_whitespace or reindent'
BREAKS = 'the comment is removed with the line break'
EDITS = [('scheduler/compile/parse/filters/others.py', '''            last_nl = token if token.is_whitespace else None
''', '''            last_nl = token if token.value.endswith(('\\n', ' ')) else None
''')]
# DEMO
from scheduler.compile import parse
expect('text', parse.format('select a -- first\n, b from t', strip_whitespace=True), 'select a -- first\n, b from t')
