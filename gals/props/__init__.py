"""One function per property."""
import importlib
WHERE = {}
def register(mod, *ids):
    for i in ids: WHERE[i] = mod
register('fields', 'C05', 'C06', 'C07', 'C08', 'C14', 'C15', 'C16', 'C17')
register('interp', 'C09', 'C10', 'C11', 'C12', 'C13')
register('algebra', 'C04')
register('grids', 'C01', 'C02', 'C03')
register('analytic', 'C20', 'C21')
register('inputs', 'C18', 'C19')
register('guards', 'C22')
register('output', 'C25', 'C27')
register('linking', 'C24')
register('effects', 'C23')
register('app', 'C26')
register('reference', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36')
register('refdrive', 'C37')
def run(prop, ctx):
    m = importlib.import_module('gals.props.' + WHERE[prop])
    getattr(m, prop)(ctx)
