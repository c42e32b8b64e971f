def minimize(*args, **kw):
  raise NotImplementedError('minimize')
