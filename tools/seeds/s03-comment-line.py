PROPERTY = 'S03'
NEEDS = 'a comment of several lines with a semicolon or a quote in it'
BREAKS = 'the comment is not recognised, scripts are cut inside of it'
EDITS = [('scheduler/compile/parse/keywords.py', '''        (r'/\\*[\\s\\S]*?\\*/', tokens.Comment.Multiline),
''', '''        (r'/\\*.*?\\*/', tokens.Comment.Multiline),
''')]
# DEMO
from scheduler.compile import parse
expect('statements', parse.split('select 1 /* a;\nb */ from t; select 2'), ['select 1 /* a;\nb */ from t;', 'select 2'])
