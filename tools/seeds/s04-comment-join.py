PROPERTY = 'S04'
NEEDS = 'strip_comments and a comment between two words without blanks that ends a group of tokens'
BREAKS = 'the words around the comment become one'
EDITS = [('scheduler/compile/parse/filters/others.py', '''                    tlist.tokens.insert(tidx, _get_insert_token(token))
                tlist.tokens.remove(token)
''', '''                    if next_:
                        tlist.tokens[tidx:tidx] = [_get_insert_token(token)]
                tlist.tokens.remove(token)
''')]
# DEMO
from scheduler.compile import parse
expect('text', parse.format('select a/* c */from t', strip_comments=True).split(), ['select', 'a', 'from', 't'])
