PROPERTY = 'S02'
NEEDS = 'a RIGHT OUTER JOIN of a table (not of a subquery)'
BREAKS = 'the joined table is not reported'
EDITS = [('scheduler/compile/keywords_lists.py', '''    "RIGHTJOIN",
    "LEFTOUTERJOIN",
    "RIGHTOUTERJOIN",
    "INTO",
''', '''    "RIGHTJOIN",
    "LEFTOUTERJOIN",
    "INTO",
''')]
# DEMO
from scheduler.compile.parser import Parser
expect('tables', list(Parser('select a from t right outer join u on t.a = u.a').tables), ['t', 'u'])
