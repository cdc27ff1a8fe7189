import importlib
MODULES = dict(C12='errors', C13='errors', C14='errors', C04='trees', C05='trees', C06='trees', C07='trees', C08='trees', C09='trees',
               C01='memory', C02='memory', C03='memory', C16='memory', C22='memory',
               C17='printing', C24='effort', C20='parallel', C21='lint', C19='quick', C18='annotations',
               C10='streams', C11='streams', C15='streams', C23='streams')
def get(prop):
    m = importlib.import_module('vf.checks.' + MODULES[prop])
    return m.CHECKS[prop]
